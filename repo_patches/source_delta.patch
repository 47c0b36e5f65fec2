From 0d144ea7726e6d8d56f70bd4ac7359144f4c55a5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:05:49 +0000
Subject: [PATCH 01/45] fix: use numpy.isin for the removed numpy.in1d in
 boundary reduction and beam results

---
 hyperstatic/core/fe_model/assembly.py |  6 +++---
 hyperstatic/core/fe_post/beam.py      | 14 +++++++-------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 8638abe..050d8df 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -277,8 +277,8 @@ class Assembly(object):
         return A
  
     def __drop_matrix_dof(self,M:spr.coo_matrix, indices:list)->spr.coo_matrix:
-        keepr = ~np.in1d(M.row, indices)
-        keepc = ~np.in1d(M.col, indices)
+        keepr = ~np.isin(M.row, indices)
+        keepc = ~np.isin(M.col, indices)
         keep=keepr*keepc
         data, row, col = M.data[keep], M.row[keep], M.col[keep] 
         for i in reversed(sorted(indices)):
@@ -288,7 +288,7 @@ class Assembly(object):
         return A
 
     def __drop_vector_dof(self,V:spr.coo_matrix, indices:list)->np.array:
-        keep = ~np.in1d(np.arange(V.shape[0]), indices)
+        keep = ~np.isin(np.arange(V.shape[0]), indices)
         return V[keep].copy()
 
     def restraintDOF(self,casename:str=None):
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index b013d35..66e3400 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -45,15 +45,15 @@ class BeamResultResolver(ResultResolver):
             mask.extend(list(range(i*6,i*6+6)))
         N=self.__assembly.get_beam_interpolate(name,loc)
         N_=self.__assembly.get_beam_interpolate1(name,loc)
-        dd=d[np.in1d(range(len(d)),mask)]
+        dd=d[np.isin(range(len(d)),mask)]
         T=self.__assembly.get_beam_transform_matrix(name)
         dd=T.dot(dd)
-        axial=dd[np.in1d(range(12),[0,6])]
-        shear2bend3=dd[np.in1d(range(12),[1,5,7,11])]
-        shear3bend2=dd[np.in1d(range(12),[2,4,8,10])]
-        bend3=dd[np.in1d(range(12),[5,11])]
-        bend2=dd[np.in1d(range(12),[4,10])]
-        torsion=dd[np.in1d(range(12),[3,9])]
+        axial=dd[np.isin(range(12),[0,6])]
+        shear2bend3=dd[np.isin(range(12),[1,5,7,11])]
+        shear3bend2=dd[np.isin(range(12),[2,4,8,10])]
+        bend3=dd[np.isin(range(12),[5,11])]
+        bend2=dd[np.isin(range(12),[4,10])]
+        torsion=dd[np.isin(range(12),[3,9])]
         x=np.dot(N[:2],axial)
         w2=np.dot(N[2:6],shear2bend3)
         w3=np.dot(N[6:10],shear3bend2)
-- 
2.43.0


From d168cf59b8c072c5ba32292bca1a77db555ed26a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:32:16 +0000
Subject: [PATCH 02/45] fix: Cartesian.set_by_3pts must update the axes
 actually exposed by the system

---
 hyperstatic/common/csys.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperstatic/common/csys.py b/hyperstatic/common/csys.py
index cdecd87..0656c90 100644
--- a/hyperstatic/common/csys.py
+++ b/hyperstatic/common/csys.py
@@ -133,17 +133,17 @@ class Cartesian(object):
         Raises:
             Exception: _description_
         """
-        tol=1e-8
-        self.__O=O    
+        tol=Tolerance.abs_tol()
         OA = np.array(A)-np.array(O)
         OB = np.array(B)-np.array(O)
-        cos = np.dot(OA, OB)/np.linalg.norm(OA)/np.linalg.norm(OB)
-        if  np.abs(np.abs(cos)-1.)<tol:
+        if np.max(np.abs(np.cross(OA,OB)))<tol:
             raise Exception("Three points should not in a line!!")        
-        self.__x = OA/np.linalg.norm(OA)
+        x = OA/np.linalg.norm(OA)
         z = np.cross(OA, OB)
-        self.__z = z/np.linalg.norm(z)
-        self.__y = np.cross(self.z, self.x)
+        z = z/np.linalg.norm(z)
+        y = np.cross(z, x)
+        self.__O=np.array(O)
+        self.__T=np.array([x,y,z])
     
     @origin.setter
     def origin(self,x:float, y:float, z:float):
-- 
2.43.0


From e77fa832e9671b2b680a1e7a6d5063830e6b0ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:32:16 +0000
Subject: [PATCH 03/45] fix: Cartesian.origin setter takes the assigned point
 (a property setter gets one value)

---
 hyperstatic/common/csys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/common/csys.py b/hyperstatic/common/csys.py
index 0656c90..1906326 100644
--- a/hyperstatic/common/csys.py
+++ b/hyperstatic/common/csys.py
@@ -146,8 +146,8 @@ class Cartesian(object):
         self.__T=np.array([x,y,z])
     
     @origin.setter
-    def origin(self,x:float, y:float, z:float):
-        self.__O = (x,y,z)
+    def origin(self,O:tuple):
+        self.__O = np.array(O)
     
     def align_with_global(self):
         """对齐绝对坐标系
-- 
2.43.0


From 389b5c11e31f51a4e881a26be76d746bc0745fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:36:17 +0000
Subject: [PATCH 04/45] fix: setting a beam rotation replaces the previous one
 instead of accumulating

---
 hyperstatic/core/fe_model/element/line/beam.py        | 2 +-
 hyperstatic/core/fe_model/element/line/simple_beam.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 40fff47..9ab06b4 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -32,8 +32,8 @@ class Beam(Line):
 
     @rotation.setter
     def rotation(self,radian:float):
+        super().local_csys.rotate_about_x(radian-self.__rotation)
         self.__rotation=radian
-        super().local_csys.rotate_about_x(radian)
 
     def integrate_K(self):
         E=self.__section.E
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 24a581d..5552291 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -48,8 +48,8 @@ class SimpleBeam(Line):
 
     @rotation.setter
     def rotation(self,radian:float):
+        super().local_csys.rotate_about_x(radian-self.__rotation)
         self.__rotation=radian
-        super().local_csys.rotate_about_x(radian)
 
     def integrate_K(self):
         #Initialize local matrices
-- 
2.43.0


From b708c39eab33b4f560807b51c657d21ec61ca107 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:36:17 +0000
Subject: [PATCH 05/45] fix: consistent beam mass matrix must be symmetric
 (missing axial term 6,0)

---
 hyperstatic/core/fe_model/element/line/beam.py        | 2 +-
 hyperstatic/core/fe_model/element/line/simple_beam.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 9ab06b4..5bad1b8 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -112,7 +112,7 @@ class Beam(Line):
         if consistent:#consistent mass matrix
             _Me=np.zeros((12,12))
             _Me[0, 0]=140
-            _Me[0, 6]=70
+            _Me[0, 6]=_Me[6, 0]=70
     
             _Me[1, 1]=156
             _Me[1, 5]=_Me[5, 1]=22 * l
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 5552291..6f4e515 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -133,7 +133,7 @@ class SimpleBeam(Line):
         if consistent:#Coordinated mass matrix
             _Me=np.zeros((12,12))
             _Me[0, 0]=140
-            _Me[0, 6]=70
+            _Me[0, 6]=_Me[6, 0]=70
     
             _Me[1, 1]=156
             _Me[1, 5]=_Me[5, 1]=22 * l
-- 
2.43.0


From 374a0da9fe0c3f2a74609b6eeda9d935ad5ee47c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:36:46 +0000
Subject: [PATCH 06/45] fix: static condensation must eliminate every released
 end force, not only the last one

---
 .../core/fe_model/element/line/beam.py        | 19 ++++++++++++-------
 .../core/fe_model/element/line/simple_beam.py | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 5bad1b8..3ca4799 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -197,18 +197,23 @@ class Beam(Line):
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-        k=Ke
-        k_ = Ke.copy()
+        k=Ke.tocsr()
+        k_ = k.copy()
         for n in np.arange(12):
             if self.__releases[n] == True:
-                k_ = k - k[:,n]* k[n,:] / k[n, n]
+                if abs(k_[n, n]) <= 1e-10*abs(k[n, n]): #already freed by the previous releases
+                    continue
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return k_
 
     def static_condensate_f(self,re,Ke):
-        k=Ke
-        r=re
-        r_ = re.copy()
+        k=Ke.tocsr()
+        k_ = k.copy()
+        r_ = re.reshape(12)
         for n in np.arange(12):
             if self.__releases[n] == True:
-                r_ = r - r[n] * k[n, :].toarray() / k[n, n]
+                if abs(k_[n, n]) <= 1e-10*abs(k[n, n]): #already freed by the previous releases
+                    continue
+                r_ = r_ - r_[n] * k_[n, :].toarray().reshape(12) / k_[n, n]
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return r_.reshape(12)
\ No newline at end of file
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 6f4e515..6118cd9 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -216,20 +216,25 @@ class SimpleBeam(Line):
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-        k=Ke
-        k_ = Ke.copy()
+        k=Ke.tocsr()
+        k_ = k.copy()
         for n in np.arange(12):
             if self.__releases[n] == True:
-                k_ = k - k[:,n]* k[n,:] / k[n, n]
+                if abs(k_[n, n]) <= 1e-10*abs(k[n, n]): #already freed by the previous releases
+                    continue
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return k_
 
     def static_condensate_f(self,re,Ke):
-        k=Ke
-        r=re
-        r_ = re.copy()
+        k=Ke.tocsr()
+        k_ = k.copy()
+        r_ = re.reshape(12)
         for n in np.arange(12):
             if self.__releases[n] == True:
-                r_ = r - r[n] * k[n, :].toarray() / k[n, n]
+                if abs(k_[n, n]) <= 1e-10*abs(k[n, n]): #already freed by the previous releases
+                    continue
+                r_ = r_ - r_[n] * k_[n, :].toarray().reshape(12) / k_[n, n]
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return r_.reshape(12)
 
 #code here should be revised
-- 
2.43.0


From 7e9c2bb8bc5d51efed4e7092065e1146fc3cf66b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:36:46 +0000
Subject: [PATCH 07/45] fix: beam interpolation functions on the relative
 location [0,1] (axial, torsion) and callable shape functions

---
 .../core/fe_model/element/line/beam.py        | 26 +++++++++----------
 .../core/fe_model/element/line/simple_beam.py | 26 +++++++++----------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 3ca4799..6e2968a 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -162,38 +162,38 @@ class Beam(Line):
         pass
 
     def get_shape_function(self):
-        Na1=lambda xi: 0.5*(1-xi)
-        Na2=lambda xi: 0.5*(1+xi)
+        Na1=lambda xi: 1-xi
+        Na2=lambda xi: xi
         Nb1=lambda xi: 1-3*xi**2+2*xi**3
         Nb2=lambda xi: (xi-2*xi**2+xi**3)*self.length
         Nb3=lambda xi: 3*xi**2-2*xi**3
         Nb4=lambda xi: (xi**3-xi**2)*self.length
-        Nt1=lambda xi: 0.5*(1-xi)
-        Nt2=lambda xi: 0.5*(1+xi)
-        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2]
+        Nt1=lambda xi: 1-xi
+        Nt2=lambda xi: xi
+        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,lambda xi:-Nb1(xi),Nb2,lambda xi:-Nb3(xi),Nb4,Nt1,Nt2]
 
     def interpolate(self,loc):
         xi=loc
-        Na1=0.5*(1-xi)
-        Na2=0.5*(1+xi)
+        Na1=1-xi
+        Na2=xi
         Nb1=1-3*xi**2+2*xi**3
         Nb2=(xi-2*xi**2+xi**3)*self.length
         Nb3=3*xi**2-2*xi**3
         Nb4=(xi**3-xi**2)*self.length
-        Nt1=0.5*(1-xi)
-        Nt2=0.5*(1+xi)
+        Nt1=1-xi
+        Nt2=xi
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
-        Na1=-0.5
-        Na2=0.5
+        Na1=-1
+        Na2=1
         Nb1=-6*xi+6*xi**2
         Nb2=(1-4*xi+3*xi**2)*self.length
         Nb3=6*xi-6*xi**2
         Nb4=(3*xi**2-2*xi)*self.length
-        Nt1=-0.5*xi
-        Nt2=0.5*xi
+        Nt1=-1
+        Nt2=1
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 6118cd9..2f0bbfd 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -180,39 +180,39 @@ class SimpleBeam(Line):
         return _Me
 
     def get_shape_function(self):
-        Na1=lambda xi: 0.5*(1-xi)
-        Na2=lambda xi: 0.5*(1+xi)
+        Na1=lambda xi: 1-xi
+        Na2=lambda xi: xi
         Nb1=lambda xi: 1-3*xi**2+2*xi**3
         Nb2=lambda xi: (xi-2*xi**2+xi**3)*self.length
         Nb3=lambda xi: 3*xi**2-2*xi**3
         Nb4=lambda xi: (xi**3-xi**2)*self.length
-        Nt1=lambda xi: 0.5*(1-xi)
-        Nt2=lambda xi: 0.5*(1+xi)
-        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2]
+        Nt1=lambda xi: 1-xi
+        Nt2=lambda xi: xi
+        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,lambda xi:-Nb1(xi),Nb2,lambda xi:-Nb3(xi),Nb4,Nt1,Nt2]
 
     
     def interpolate(self,loc):
         xi=loc
-        Na1=0.5*(1-xi)
-        Na2=0.5*(1+xi)
+        Na1=1-xi
+        Na2=xi
         Nb1=1-3*xi**2+2*xi**3
         Nb2=(xi-2*xi**2+xi**3)*self.length
         Nb3=3*xi**2-2*xi**3
         Nb4=(xi**3-xi**2)*self.length
-        Nt1=0.5*(1-xi)
-        Nt2=0.5*(1+xi)
+        Nt1=1-xi
+        Nt2=xi
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
-        Na1=-0.5
-        Na2=0.5
+        Na1=-1
+        Na2=1
         Nb1=-6*xi+6*xi**2
         Nb2=(1-4*xi+3*xi**2)*self.length
         Nb3=6*xi-6*xi**2
         Nb4=(3*xi**2-2*xi)*self.length
-        Nt1=-0.5*xi
-        Nt2=0.5*xi
+        Nt1=-1
+        Nt2=1
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-- 
2.43.0


From 3caaa31cc62edb20a0114a813f1f8f2f4191ccec Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:36:46 +0000
Subject: [PATCH 08/45] fix: Model.set_beam_rotation applies the rotation to
 the beam

---
 hyperstatic/core/fe_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 99d8dc1..579c360 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -188,7 +188,7 @@ class Model:
             x,y,z coordinate of reference vector.
         """
         beam=self.__beams[name]
-        pass
+        beam.rotation=rotation
     
     def set_beam_releases(self,name:str,
         u1i=False,u2i=False,u3i=False,r1i=False,r2i=False,r3i=False,
-- 
2.43.0


From 861cfcf1783cebf7ec3940b3d53317b29b079b1c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:36:46 +0000
Subject: [PATCH 09/45] fix: Model.set_beam_releases sets the releases of the
 beam

---
 hyperstatic/core/fe_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 579c360..aafb4bb 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -193,7 +193,7 @@ class Model:
     def set_beam_releases(self,name:str,
         u1i=False,u2i=False,u3i=False,r1i=False,r2i=False,r3i=False,
         u1j=False,u2j=False,u3j=False,r1j=False,r2j=False,r3j=False):
-        self.beams[name].releases=np.array([u1i,u2i,u3i,r1i,r2i,r3i,u1j,u2j,u3j,r1j,r2j,r3j])
+        self.__beams[name].releases=np.array([u1i,u2i,u3i,r1i,r2i,r3i,u1j,u2j,u3j,r1j,r2j,r3j])
 
     def get_beam_reaction(self,name:str,
         u1i:float,u2i:float,u3i:float,r1i:float,r2i:float,r3i:float,
-- 
2.43.0


From d65baad39551deffa8913879a5ac0f664eed4be8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:48:08 +0000
Subject: [PATCH 10/45] fix: LoadPattern.get_beam_concentrated returns the
 concentrated beam load, not the distributed one

---
 hyperstatic/core/fe_model/load/pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/pattern.py b/hyperstatic/core/fe_model/load/pattern.py
index 9569eae..50fbfd8 100644
--- a/hyperstatic/core/fe_model/load/pattern.py
+++ b/hyperstatic/core/fe_model/load/pattern.py
@@ -49,8 +49,8 @@ class LoadPattern(object):
         return None
 
     def get_beam_concentrated(self,name):
-        if name in self.__beam_distributed.keys():
-            return self.__beam_distributed[name]
+        if name in self.__beam_concentrated.keys():
+            return self.__beam_concentrated[name]
         return None
 
     def get_beam_f(self,name,l):
-- 
2.43.0


From f9a0893ada2ff4f05301b34776c308846454949b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:48:08 +0000
Subject: [PATCH 11/45] fix: nodal load and displacement dictionaries of a load
 case must include the first pattern of every node

---
 hyperstatic/core/fe_model/load/__init__.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 0e26354..287fe55 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -93,10 +93,9 @@ class LoadCase(object):
         for patname,pat in self.__pattern.items():
             d=pat.get_nodal_f_dict()
             for node,load in d.items():
-                if node in res.keys():
-                    res[node]+=load*self.__load_factor[patname]
-                else:
+                if node not in res.keys():
                     res[node]=np.zeros(6)
+                res[node]+=load*self.__load_factor[patname]
         return res
 
     def get_nodal_f_time_history_dict(self,name):
@@ -123,10 +122,9 @@ class LoadCase(object):
         for patname,pat in self.__pattern.items():
             d=pat.get_nodal_d_dict()
             for node,load in d.items():
-                if node in res.keys():
-                    res[node]+=load*self.__load_factor[patname]
-                else:
+                if node not in res.keys():
                     res[node]=np.zeros(6)
+                res[node]+=load*self.__load_factor[patname]
         return res
 
 
-- 
2.43.0


From f5c7c278868c71c13f34b78fd717dcf337c14cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:48:08 +0000
Subject: [PATCH 12/45] fix: nodal load time histories of a load case
 (dictionary raised, curves of different length raised)

---
 hyperstatic/core/fe_model/load/__init__.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 287fe55..76e3a5e 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -85,7 +85,7 @@ class LoadCase(object):
             if f is None:
                 continue
             crv=curve[1,:]
-            fn+=crv.reshape(crv.size,1).dot(f.reshape(1,6))*factor
+            fn[:crv.size,:]+=crv.reshape(crv.size,1).dot(f.reshape(1,6))*factor
         return fn
 
     def get_nodal_f_dict(self):
@@ -98,9 +98,9 @@ class LoadCase(object):
                 res[node]+=load*self.__load_factor[patname]
         return res
 
-    def get_nodal_f_time_history_dict(self,name):
+    def get_nodal_f_time_history_dict(self,name=None):
         max_length=0
-        for patname,curve in self.__load_curve.keys():
+        for patname,curve in self.__load_curve.items():
             l=curve.shape[1]
             max_length=max(l,max_length)
         res={}
@@ -110,11 +110,10 @@ class LoadCase(object):
             curve=self.__load_curve[patname]
             d=pat.get_nodal_f_dict()
             for node,load in d.items():
-                if node in res.keys():
-                    crv=curve[1,:]
-                    fn+=crv.reshape(crv.size,1).dot(f.reshape(1,6))*factor
-                else:
+                if node not in res.keys():
                     res[node]=np.zeros((max_length,6))
+                crv=curve[1,:]
+                res[node][:crv.size,:]+=crv.reshape(crv.size,1).dot(load.reshape(1,6))*factor
         return res
 
     def get_nodal_d_dict(self):
-- 
2.43.0


From 6594fc95287c5381f7448680dc01803a218fdef3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:48:08 +0000
Subject: [PATCH 13/45] fix: LoadCase.get_beam_f_dict returns the superposed
 equivalent beam loads

---
 hyperstatic/core/fe_model/load/__init__.py | 7 +++----
 hyperstatic/core/fe_model/load/pattern.py  | 4 ++++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 76e3a5e..26ca66c 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -142,10 +142,9 @@ class LoadCase(object):
         for patname,pat in self.__pattern.items():
             d=pat.get_beam_f_dict(ldict)
             for beam,load in d.items():
-                if beam in res.keys():
-                    res[beam]+=load*self.__load_factor[patname]
-                else:
-                    res[beam]=np.zeros(6)
+                if beam not in res.keys():
+                    res[beam]=np.zeros(12)
+                res[beam]+=load*self.__load_factor[patname]
         return res
 
     def get_settings(self)->dict:
diff --git a/hyperstatic/core/fe_model/load/pattern.py b/hyperstatic/core/fe_model/load/pattern.py
index 50fbfd8..db973d7 100644
--- a/hyperstatic/core/fe_model/load/pattern.py
+++ b/hyperstatic/core/fe_model/load/pattern.py
@@ -139,6 +139,10 @@ class LoadPattern(object):
             r[11]+=-v[1]*a*a*b/l/l+v[5]*(-a*(3*b-l)/l/l)#
         return r
 
+    def get_beam_f_dict(self,ldict):
+        names=list(self.__beam_distributed.keys())+[n for n in self.__beam_concentrated.keys() if n not in self.__beam_distributed.keys()]
+        return {name:self.get_beam_f(name,ldict[name]) for name in names}
+
     # def set_node_force(self,node,force,append=False):
     #     """
     #     add node force to model.
-- 
2.43.0


From 162bbfac68cf10197c052aaf46dff960c4a19e25 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:48:08 +0000
Subject: [PATCH 14/45] fix: beam loads of a time-history case follow the time
 curve of their pattern, as nodal loads do

---
 hyperstatic/core/fe_model/assembly.py      | 2 +-
 hyperstatic/core/fe_model/load/__init__.py | 4 ++--
 hyperstatic/core/fe_model/load/loadcase.py | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 050d8df..cb95bab 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -244,7 +244,7 @@ class Assembly(object):
             #Transform matrix
             V=self.__model.get_beam_transform_matrix(beam)
             Vt = V.transpose()
-            re=loadcase.get_beam_f(beam,l)
+            re=loadcase.get_beam_f(beam,l,time_step)
             re=self.__model.get_beam_condensated_f(beam,re)
             re_=Vt.dot(re)
             k=0
diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 26ca66c..612395a 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -127,14 +127,14 @@ class LoadCase(object):
         return res
 
 
-    def get_beam_f(self,name,l):
+    def get_beam_f(self,name,l,time_step=0):
         fe=np.zeros(12)
         for patname,factor in self.__load_factor.items():
             pat=self.__pattern[patname]
             f=pat.get_beam_f(name,l)
             if f is None:
                 continue
-            fe+=f*factor
+            fe+=f*factor*self.__load_curve[patname][1,time_step]
         return fe
 
     def get_beam_f_dict(self,ldict):
diff --git a/hyperstatic/core/fe_model/load/loadcase.py b/hyperstatic/core/fe_model/load/loadcase.py
index 9b73d8f..640a04b 100644
--- a/hyperstatic/core/fe_model/load/loadcase.py
+++ b/hyperstatic/core/fe_model/load/loadcase.py
@@ -40,8 +40,8 @@ class StaticCase(LoadCase):
     def get_nodal_d_dict(self):
         return super().get_nodal_d_dict()
 
-    def get_beam_f(self,name,l):
-        return super().get_beam_f(name,l)
+    def get_beam_f(self,name,l,time_step=0):
+        return super().get_beam_f(name,l,time_step)
 
     def get_beam_f_dict(self,ldict):
         return super().get_beam_f_dict(ldict)
@@ -158,8 +158,8 @@ class TimeHistoryCase(LoadCase):
     def get_nodal_d_dict(self):
         return super().get_nodal_d_dict()
 
-    def get_beam_f(self,name,l):
-        return super().get_beam_f(name,l)
+    def get_beam_f(self,name,l,time_step=0):
+        return super().get_beam_f(name,l,time_step)
 
     def get_beam_f_dict(self,ldict):
         return super().get_beam_f_dict(ldict)
-- 
2.43.0


From 5fc1778260c0bc5f761a53107a17a592709594d2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:57:29 +0000
Subject: [PATCH 15/45] fix: adding a node, beam or shell under an existing
 name keeps its hid (hids stay 0..n-1 and distinct)

---
 hyperstatic/core/fe_model/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index aafb4bb..e55ad02 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -77,7 +77,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__nodes) #hid
+            res=self.__hid['node'].get(name,len(self.__nodes)) #hid, an existing name keeps its own
             self.__hid['node'][name]=res
             self.__nodes[name]=node
         else:
@@ -153,7 +153,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__beams)
+            res=self.__hid["beam"].get(name,len(self.__beams)) #an existing name keeps its hid
             self.__hid["beam"][name]=res
             self.__beams[name]=beam
         else:
@@ -172,7 +172,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__beams)
+            res=self.__hid["beam"].get(name,len(self.__beams)) #an existing name keeps its hid
             self.__hid["beam"][name]=res
             self.__beams[name]=beam
         else:
@@ -298,7 +298,7 @@ class Model:
             elm=DKGQ(name,shell_sec,node0, node1, node2, node3)
         else:
             elm=DKT(name,shell_sec,node0, node1, node2)
-        res=len(self.__shells)
+        res=self.__hid["shell"].get(name,len(self.__shells)) #an existing name keeps its hid
         self.__hid["shell"][name]=res
         self.__shells[name]=elm
         return res
-- 
2.43.0


From c9140c54d68041030e22adda44629f61dd9b3070 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:57:29 +0000
Subject: [PATCH 16/45] fix: Model.get_shell_location returns the locations of
 the nodes, triangles report three nodes

---
 hyperstatic/core/fe_model/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index e55ad02..4d256bb 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -307,10 +307,10 @@ class Model:
         return list(self.__shells.keys())
 
     def get_shell_connection(self,name:str):
-        return self.__shells[name].nodes[0].name,self.__shells[name].nodes[1].name,self.__shells[name].nodes[2].name,self.__shells[name].nodes[3].name
+        return tuple(node.name for node in self.__shells[name].nodes)
 
     def get_shell_location(self,name:str):
-        return tuple(self.__shells[name].nodes[0]),tuple(self.__shells[name].nodes[1]),tuple(self.__shells[name].nodes[2]),tuple(self.__shells[name].nodes[3])
+        return tuple(tuple(node.loc) for node in self.__shells[name].nodes)
 
     def get_shell_hid(self,name:str):
         return self.__hid['shell'][name]
-- 
2.43.0


From daac44f6910d3fbb24a27d0d33d98f55e3e28e43 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:57:29 +0000
Subject: [PATCH 17/45] fix: Assembly.get_node_transform_matrix returns the
 transform matrix, not the hid

---
 hyperstatic/core/fe_model/assembly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index cb95bab..b7c68ee 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -37,7 +37,7 @@ class Assembly(object):
         return self.__model.get_node_hid(node)
 
     def get_node_transform_matrix(self,node:str):
-        return self.__model.get_node_hid(node)
+        return self.__model.get_node_transform_matrix(node)
 
     def get_beam_hid(self,elm:str):
         return self.__model.get_beam_hid(elm)
-- 
2.43.0


From abcbd080ce346f5ae0228363490cc6c92c277514 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 20:36:29 +0000
Subject: [PATCH 18/45] fix: beam deformation takes the end displacements in
 the order of the beam's ends

---
 hyperstatic/core/fe_post/beam.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 66e3400..3fa713e 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -45,7 +45,7 @@ class BeamResultResolver(ResultResolver):
             mask.extend(list(range(i*6,i*6+6)))
         N=self.__assembly.get_beam_interpolate(name,loc)
         N_=self.__assembly.get_beam_interpolate1(name,loc)
-        dd=d[np.isin(range(len(d)),mask)]
+        dd=d[mask] #in the order of the ends, whichever hid is smaller
         T=self.__assembly.get_beam_transform_matrix(name)
         dd=T.dot(dd)
         axial=dd[np.isin(range(12),[0,6])]
@@ -60,8 +60,6 @@ class BeamResultResolver(ResultResolver):
         theta=np.dot(N[10:],torsion)
         phi2=np.dot(N_[2:6],shear2bend3)
         phi3=np.dot(N_[6:10],shear3bend2)
-        print(N_[2:6])   
-        print(shear2bend3[2:])     
         return np.array([x,w2,w3,theta,phi2,phi3])
          
 if __name__=="__main__":
-- 
2.43.0


From 078d48876f3f9c2abdaed833e80147f056881033 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 20:36:29 +0000
Subject: [PATCH 19/45] fix: resolve_beam_end_force raised; end forces are the
 stiffness forces less the equivalent loads

---
 hyperstatic/core/fe_model/assembly.py |  8 ++++++++
 hyperstatic/core/fe_post/beam.py      | 20 ++++++++++++++------
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index b7c68ee..30d2470 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -60,6 +60,14 @@ class Assembly(object):
     def get_beam_interpolate1(self,elm:str,loc:float):
         return self.__model.get_beam_interpolate1(elm,loc)
 
+    def get_beam_end_force(self,elm:str,d,casename:str,time_step=0):
+        """forces acting on the ends of a beam in local axes, d: the displacements of its ends in global axes"""
+        K=self.__model.get_beam_K(elm,condensate=True)
+        T=self.__model.get_beam_transform_matrix(elm)
+        re=self.__loadcase[casename].get_beam_f(elm,self.__model.get_beam_length(elm),time_step)
+        re=self.__model.get_beam_condensated_f(elm,re)
+        return K.dot(T.dot(d))-np.array(re).reshape(12)
+
     def get_loadcase_setting(self,casename:str):
         loadcase=self.__loadcase[casename]
         return loadcase.get_settings()
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 3fa713e..13f3cb7 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -17,13 +17,21 @@ class BeamResultResolver(ResultResolver):
         return super().workpath
 
     def resolve_beam_end_force(self,name,casename:str,step:int=1):
-        path=self.__path
+        """Resolve the forces acting on the ends of a beam, in its local axes
+
+        Args:
+            name (str): name of beam
+            casename (str): name of loadcase
+            step (int, optional): step. Defaults to 1.
+
+        Returns:
+            np.array: the 12 end forces
+        """
+        path=self.__workpath
         d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
-        K=self.__assembly.get_beam_K(name)
-        hids=self.__assembly.get_beam_node_hids(name)
-        dd=[d[i] for i in hids]
-        res = K*dd
-        return res
+        i,j=self.__assembly.get_beam_node_hids(name)
+        dd=np.concatenate([d[i*6:i*6+6],d[j*6:j*6+6]])
+        return self.__assembly.get_beam_end_force(name,dd,casename,step-1)
 
     def resolve_beam_deformation(self,name:str,loc:float,casename:str,step:int=1)->np.array:
         """Resolve beam deformation
-- 
2.43.0


From 7e0ebf5d5ba1563e9992cafa4b0d3586bde9395c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 20:36:29 +0000
Subject: [PATCH 20/45] fix: resolve_nodal_reaction read a matrix that is never
 written and ignored the loads

---
 hyperstatic/core/fe_post/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index d2c0eb5..8fa3c21 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -39,7 +39,7 @@ class NodeResultResolver(ResultResolver):
         """
         path=self.__workpath
         d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
-        k=np.load(os.path.join(path,casename+".k.npy"))
-        f=np.dot(k,d)
+        k=self.__assembly.assemble_K().tocsr()
+        f=k.dot(d)-self.__assembly.assemble_f(casename,step-1).toarray().reshape(-1)
         hid=self.__assembly.get_node_hid(name)
         return f[hid*6:hid*6+6]
-- 
2.43.0


From 50b7d7bfef7110af1741fab1d21747678d5c5d2f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 20:36:29 +0000
Subject: [PATCH 21/45] fix: resolve_structural_reaction read a matrix that is
 never written, ignored loads and model restraints

---
 hyperstatic/core/fe_post/structure.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_post/structure.py b/hyperstatic/core/fe_post/structure.py
index 8391bab..241e2a1 100644
--- a/hyperstatic/core/fe_post/structure.py
+++ b/hyperstatic/core/fe_post/structure.py
@@ -25,10 +25,12 @@ class StructureResultResolver(ResultResolver):
 
     def resolve_structural_reaction(self,casename:str)->float:
         path=self.__workpath
-        k=np.load(os.path.join(path,casename+".k.npy"))
-        d=np.load(os.path.join(path,casename+".d.npy"))
-        f=np.dot(k,d)
-        restraints=self.__assembly.restraintDOF(casename)
+        k=self.__assembly.assemble_K().tocsr()
+        d=np.load(os.path.join(path,casename+".d.npy"))[0,:] # row-first
+        f=k.dot(d)-self.__assembly.assemble_f(casename).toarray().reshape(-1)
+        restraints=self.__assembly.restraintDOF(casename) #case restraint first, then model
+        if len(restraints)==0:
+            restraints=self.__assembly.restraintDOF()
         res=0
         for i in restraints:
             res+=f[i]
-- 
2.43.0


From 57b3b88a3f87e39b498edc8084436d8338c3936f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 20:36:29 +0000
Subject: [PATCH 22/45] fix: resolve_modal_frequency took the stored squared
 circular frequencies for circular frequencies

---
 hyperstatic/core/fe_post/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_post/structure.py b/hyperstatic/core/fe_post/structure.py
index 241e2a1..cebc2e1 100644
--- a/hyperstatic/core/fe_post/structure.py
+++ b/hyperstatic/core/fe_post/structure.py
@@ -14,7 +14,7 @@ class StructureResultResolver(ResultResolver):
 
     def resolve_modal_frequency(self,casename:str)->dict:
         path=self.__workpath
-        omega=np.load(os.path.join(path,casename+".o.npy"))
+        omega=np.sqrt(np.load(os.path.join(path,casename+".o.npy"))) #the solver stores omega squared
         T=2*np.pi/omega
         f=1/T
         return {
-- 
2.43.0


From 53506d9a73eb6fdbb6b4b295e7586351338447ba Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 20:50:09 +0000
Subject: [PATCH 23/45] fix: modal analysis raised when as many modes as
 degrees of freedom (or more) were requested

---
 hyperstatic/core/fe_solver/dynamic.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 229d6d8..cd578d5 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -58,10 +58,14 @@ class ModalSolver(Solver):
         K_=assembly.assemble_boundary(casename,K)
         M_=assembly.assemble_boundary(casename,M)
 
-        if k>assembly.DOF:
-            logging.info('Warning: the modal number to extract is larger than the system DOFs, only %d modes are available'%assembly.DOF)
-            k=assembly.DOF
-        omega2s,modes = sl.eigsh(K_,k,M_,sigma=0,which='LM')
+        n=K_.shape[0] #DOFs left by the restraints of the case
+        if k>n:
+            logging.info('Warning: the modal number to extract is larger than the system DOFs, only %d modes are available'%n)
+            k=n
+        if k<n:
+            omega2s,modes = sl.eigsh(K_,k,M_,sigma=0,which='LM')
+        else: #eigsh can not extract all the modes
+            omega2s,modes = linalg.eigh(K_.toarray(),M_.toarray())
         # omega2s,modes =linalg.eig(K_.todense()[6:,6:],M_.todense()[6:,6:])
         mode_= modes.T # row first
         omega2s=omega2s.reshape(k)
-- 
2.43.0


From 74a54de5506164a57fd98c4c355fa7e35327ae0a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 20:50:26 +0000
Subject: [PATCH 24/45] fix: results of modal cases read mode shapes, stored
 for the unrestrained DOFs only, at the DOFs of the whole model

---
 hyperstatic/core/fe_post/__init__.py  | 16 +++++++++++++++-
 hyperstatic/core/fe_post/beam.py      |  6 ++----
 hyperstatic/core/fe_post/node.py      |  6 ++----
 hyperstatic/core/fe_post/structure.py |  3 +--
 4 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/hyperstatic/core/fe_post/__init__.py b/hyperstatic/core/fe_post/__init__.py
index 724c1be..1f9628e 100644
--- a/hyperstatic/core/fe_post/__init__.py
+++ b/hyperstatic/core/fe_post/__init__.py
@@ -18,4 +18,18 @@ class ResultResolver(object):
 
     @property
     def assembly(self):
-        return self.__assembly
\ No newline at end of file
+        return self.__assembly
+
+    def load_displacement(self,casename:str,step:int=1)->np.array:
+        """displacements of all the DOFs at a step (or in a mode)"""
+        d=np.load(os.path.join(self.__workpath,casename+".d.npy"))[step-1,:] # row-first
+        n=self.__assembly.node_count*6
+        if d.size==n:
+            return d
+        #mode shapes are stored for the unrestrained DOFs only
+        restraints=self.__assembly.restraintDOF(casename) #case restraint first, then model
+        if len(restraints)==0:
+            restraints=self.__assembly.restraintDOF()
+        res=np.zeros(n)
+        res[~np.isin(np.arange(n),restraints)]=d
+        return res
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 13f3cb7..884cf33 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -27,8 +27,7 @@ class BeamResultResolver(ResultResolver):
         Returns:
             np.array: the 12 end forces
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         i,j=self.__assembly.get_beam_node_hids(name)
         dd=np.concatenate([d[i*6:i*6+6],d[j*6:j*6+6]])
         return self.__assembly.get_beam_end_force(name,dd,casename,step-1)
@@ -45,8 +44,7 @@ class BeamResultResolver(ResultResolver):
         Returns:
             np.array: [x,w2,w3,theta]
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         hids=self.__assembly.get_beam_node_hids(name)
         mask=[]
         for i in hids:
diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index 8fa3c21..a8de9d8 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -21,8 +21,7 @@ class NodeResultResolver(ResultResolver):
         Returns:
             np.array: 
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         hid=self.__assembly.get_node_hid(name)
         return d[hid*6:hid*6+6]
 
@@ -37,8 +36,7 @@ class NodeResultResolver(ResultResolver):
         Returns:
             np.array: 
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         k=self.__assembly.assemble_K().tocsr()
         f=k.dot(d)-self.__assembly.assemble_f(casename,step-1).toarray().reshape(-1)
         hid=self.__assembly.get_node_hid(name)
diff --git a/hyperstatic/core/fe_post/structure.py b/hyperstatic/core/fe_post/structure.py
index cebc2e1..10ec13e 100644
--- a/hyperstatic/core/fe_post/structure.py
+++ b/hyperstatic/core/fe_post/structure.py
@@ -24,9 +24,8 @@ class StructureResultResolver(ResultResolver):
             }
 
     def resolve_structural_reaction(self,casename:str)->float:
-        path=self.__workpath
         k=self.__assembly.assemble_K().tocsr()
-        d=np.load(os.path.join(path,casename+".d.npy"))[0,:] # row-first
+        d=self.load_displacement(casename)
         f=k.dot(d)-self.__assembly.assemble_f(casename).toarray().reshape(-1)
         restraints=self.__assembly.restraintDOF(casename) #case restraint first, then model
         if len(restraints)==0:
-- 
2.43.0


From 0a39054b4797794a89bd3268804ecc45bc4508bf Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:01:27 +0000
Subject: [PATCH 25/45] fix: beam sections report the shape they were created
 with

---
 hyperstatic/core/fe_model/section/beam_section.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index ec092dc..481e8af 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -14,7 +14,6 @@ class BeamSection(object):
         self.__I33=I33
         self.__W22=W22
         self.__W33=W33
-        self.__shape='general'
         self.__sizes=sizes
 
 
-- 
2.43.0


From 8c7a457591dc8de8e5b4d20ea31b21aaa18f2409 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:01:27 +0000
Subject: [PATCH 26/45] fix: radii of gyration of beam sections can be read

---
 hyperstatic/core/fe_model/section/beam_section.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index 481e8af..b2bf94f 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -93,14 +93,6 @@ class BeamSection(object):
     def W33(self):
         return self.__W33
 
-    @property
-    def i22(self):
-        return (self.__I/self.__A)**0.5
-
-    @property
-    def i33(self):
-        return (self.__I/self.__A)**0.5
-
 class BoxSection(BeamSection):
     def __init__(self, name: str, material: IsotropicMaterial, h,b,tw,tf):
         A=h*b-(h-2*tf)*(b-2*tw)
-- 
2.43.0


From 621f9c554a2acfe1c95f0a2c2b8e3a8a1c35c93a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:01:27 +0000
Subject: [PATCH 27/45] fix: I22 of an I section counts the web between the
 flanges only

---
 hyperstatic/core/fe_model/section/beam_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index b2bf94f..441ebcf 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -137,7 +137,7 @@ class ISection(BeamSection):
         s=sum([np.tanh(m*3.141592*tw/2/(h-2*tf))/m**5 for m in range(1,30,2)])#腹板取薄膜比拟前30阶
         beta=1/3-64*(h-2*tf)/(3.141592**5*tw)*s        
         J+=tw*(h-2*tf)**3*beta
-        I22=1/12*tf*b**3*2+1/12*h*tw**3
+        I22=1/12*tf*b**3*2+1/12*(h-2*tf)*tw**3
         I33=(b*h**3-(b-tw)*(h-2*tf)**3)/12
         W22=I22/(b/2)
         W33=I33/(h/2)
-- 
2.43.0


From 76e8168be9c8cf0950dd58c9d5e5d51ca791d24b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:01:27 +0000
Subject: [PATCH 28/45] fix: torsion constant of thin-walled I sections (series
 along the thickness)

---
 hyperstatic/core/fe_model/section/beam_section.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index 441ebcf..05906d5 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -131,12 +131,12 @@ class ISection(BeamSection):
         A=b*h-(b-tw)*(h-2*tf)
         As2=tw*h
         As3=5/3*tf*b 
-        s=sum([np.tanh(m*3.141592*tf/2/b)/m**5 for m in range(1,30,2)])#翼缘取薄膜比拟前30阶
-        beta=1/3-64*b/(3.141592**5*tf)*s        
-        J=tf*b**3*beta*2
-        s=sum([np.tanh(m*3.141592*tw/2/(h-2*tf))/m**5 for m in range(1,30,2)])#腹板取薄膜比拟前30阶
-        beta=1/3-64*(h-2*tf)/(3.141592**5*tw)*s        
-        J+=tw*(h-2*tf)**3*beta
+        s=sum([np.tanh(m*3.141592*b/2/tf)/m**5 for m in range(1,30,2)])#翼缘取薄膜比拟前30阶
+        beta=1/3-64*tf/(3.141592**5*b)*s        
+        J=b*tf**3*beta*2
+        s=sum([np.tanh(m*3.141592*(h-2*tf)/2/tw)/m**5 for m in range(1,30,2)])#腹板取薄膜比拟前30阶
+        beta=1/3-64*tw/(3.141592**5*(h-2*tf))*s        
+        J+=(h-2*tf)*tw**3*beta
         I22=1/12*tf*b**3*2+1/12*(h-2*tf)*tw**3
         I33=(b*h**3-(b-tw)*(h-2*tf)**3)/12
         W22=I22/(b/2)
-- 
2.43.0


From 207805628187014cfef332702e73ca6eabafb009 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:02:17 +0000
Subject: [PATCH 29/45] fix: Lame's first parameter lacked the factor mu

---
 hyperstatic/core/fe_model/material/isotropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/material/isotropy.py b/hyperstatic/core/fe_model/material/isotropy.py
index 59fe84b..693ef34 100644
--- a/hyperstatic/core/fe_model/material/isotropy.py
+++ b/hyperstatic/core/fe_model/material/isotropy.py
@@ -40,7 +40,7 @@ class IsotropicMaterial(Material):
     def lamda(self):
         E=self.__E
         mu=self.__mu
-        return E/(1+mu)/(1-2*mu)
+        return E*mu/(1+mu)/(1-2*mu)
 
     def C(self,exx,eyy,ezz,gxy,gyz,gzx)->np.array:
         return np.array([[exx, gxy/2, gzx/2], 
-- 
2.43.0


From 981a0cd37be812eb1df25068fee158bb6bb43200 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:02:17 +0000
Subject: [PATCH 30/45] fix: stress tensor of an isotropic material can be
 evaluated

---
 hyperstatic/core/fe_model/material/isotropy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/material/isotropy.py b/hyperstatic/core/fe_model/material/isotropy.py
index 693ef34..2d316b6 100644
--- a/hyperstatic/core/fe_model/material/isotropy.py
+++ b/hyperstatic/core/fe_model/material/isotropy.py
@@ -47,10 +47,9 @@ class IsotropicMaterial(Material):
         [gxy/2, eyy, gyz/2], 
         [gzx/2, gyz/2, ezz]])
 
-    @property
     def D(self,exx,eyy,ezz,gxy,gyz,gzx)->np.array:
         E=self.__E
-        nu=self.__m
+        nu=self.__mu
         return np.array([[E*eyy*nu/((1 - 2*nu)*(nu + 1)) + E*ezz*nu/((1 - 2*nu)*(nu + 1)) + exx*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1)), E*gxy/(2*(nu + 1)), E*gzx/(2*(nu + 1))], [E*gxy/(2*(nu + 1)), E*exx*nu/((1 - 2*nu)*(nu + 1)) + E*ezz*nu/((1 - 2*nu)*(nu + 1)) + eyy*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1)), E*gyz/(2*(nu + 1))], [E*gzx/(2*(nu + 1)), E*gyz/(2*(nu + 1)), E*exx*nu/((1 - 2*nu)*(nu + 1)) + E*eyy*nu/((1 - 2*nu)*(nu + 1)) + ezz*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1))]])
 
 
-- 
2.43.0


From 35ddc61249579e5c32f77a1c3de94333525f9e3a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:02:17 +0000
Subject: [PATCH 31/45] fix: sine and cosine curves have exactly n points

---
 hyperstatic/common/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/common/curve.py b/hyperstatic/common/curve.py
index fe1abb2..623abda 100644
--- a/hyperstatic/common/curve.py
+++ b/hyperstatic/common/curve.py
@@ -25,12 +25,12 @@ class Curve(object):
 
     @staticmethod
     def sin(name:str,A:float,w:float,phi:float,dt:float,n:int):
-        x=np.arange(0,n*dt,dt)
+        x=np.arange(n)*dt
         y=A*np.sin(w*x+phi)
         return Curve(name,x,y)
 
     @staticmethod
     def cos(name:str,A:float,w:float,phi:float,dt:float,n:int):
-        x=np.arange(0,n*dt,dt)
+        x=np.arange(n)*dt
         y=A*np.cos(w*x+phi)
         return Curve(name,x,y)
\ No newline at end of file
-- 
2.43.0


From 0f7479ca62ca1f0900fcd6f2535bc3a7cde50d79 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:06:49 +0000
Subject: [PATCH 32/45] fix: Api.add_beam_section_pipe added a rectangle

---
 hyperstatic/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index cf76be3..dfc36af 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -336,7 +336,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.add_beam_section_rectangle(name,material,d,t)
+            self.__model.add_beam_section_pipe(name,material,d,t)
             return True
         except Exception as e:
             logging.warning(str(e)+" when adding pipe beam section")
-- 
2.43.0


From a0d9f740bd177caef5d882e4879432ca567ea6db Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:06:49 +0000
Subject: [PATCH 33/45] fix: Api.add_shell passed the nodes in place of the
 section

---
 hyperstatic/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index dfc36af..856cbc9 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -475,7 +475,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.add_shell(name,node1,node2,node3,node4,section)
+            self.__model.add_shell(name,section,node1,node2,node3,node4)
             return True
         except Exception as e:
             logging.warning(str(e)+" when adding beam")
-- 
2.43.0


From de13e17aab88176f22f3e8f4ebc12dd3cad07fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:06:49 +0000
Subject: [PATCH 34/45] fix: Api.result_get_nodal_reaction always failed

---
 hyperstatic/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 856cbc9..db2e2d3 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -855,7 +855,7 @@ class Api(object):
         """
         try:
             workpath=self.__workpath
-            resolver=NodeResultResolver(workpath)
+            resolver=NodeResultResolver(workpath,self.__filename)
             res=resolver.resolve_nodal_reaction(node,case,step=1)
             return res
         except Exception as e:
-- 
2.43.0


From a87911a9c23c92345334c2b750089a668edb21e8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:06:49 +0000
Subject: [PATCH 35/45] fix: Api.clear_workspace always failed (os.remove of a
 folder)

---
 hyperstatic/core/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index db2e2d3..fe5c5ce 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -2,6 +2,7 @@
 import pickle
 from datetime import datetime
 import os
+import shutil
 import logging
 from typing import Dict
 import numpy as np
@@ -85,7 +86,7 @@ class Api(object):
             return False
         else:
             try:
-                os.remove(workpath)
+                shutil.rmtree(workpath)
                 os.mkdir(workpath)
                 return True
             except Exception as e :
-- 
2.43.0


From 8af4f16d2c497b277ccd3c95ee0d28ce9480a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:06:57 +0000
Subject: [PATCH 36/45] fix: Api.solve_modal always failed, the solver takes
 the number of modes

---
 hyperstatic/core/fe_solver/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index cd578d5..e1a8866 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -33,11 +33,11 @@ class ModalSolver(Solver):
         elif setting["algorithm"]=='ritz':
             pass
 
-    def solve_eigen(self,casename:str)->bool:
+    def solve_eigen(self,casename:str,n_modes:int=None)->bool:
         assembly=super().assembly
         logging.info('solving problem with %d DOFs...'%assembly.DOF)
         setting=assembly.get_loadcase_setting(casename)
-        k=setting['n_modes']
+        k=setting['n_modes'] if n_modes is None else n_modes
         precase=setting['base_case']
         if precase==None:
             base_case="0"
-- 
2.43.0


From 0e6ddd8c236b26074e05ab3662d98ebd4d3f688e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:53:12 +0000
Subject: [PATCH 37/45] fix: a static case has the order it is created with

---
 hyperstatic/core/fe_model/load/loadcase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/load/loadcase.py b/hyperstatic/core/fe_model/load/loadcase.py
index 640a04b..d838b64 100644
--- a/hyperstatic/core/fe_model/load/loadcase.py
+++ b/hyperstatic/core/fe_model/load/loadcase.py
@@ -7,7 +7,7 @@ from hyperstatic.core.fe_model.load import LoadCase
 class StaticCase(LoadCase):
     def __init__(self,name:str,order=1,base_case=None):
         super().__init__(name)
-        self.__order=1
+        self.__order=order
         self.__base_case=base_case
 
     @property
-- 
2.43.0


From 3a7fc3a8e52d0c67bd94d7659e95339603060b0e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:36:57 +0000
Subject: [PATCH 38/45] fix: area of a triangular element that is not in a
 horizontal plane

---
 hyperstatic/core/fe_model/element/tria/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/element/tria/__init__.py b/hyperstatic/core/fe_model/element/tria/__init__.py
index 253d275..724c93f 100644
--- a/hyperstatic/core/fe_model/element/tria/__init__.py
+++ b/hyperstatic/core/fe_model/element/tria/__init__.py
@@ -21,7 +21,7 @@ class Tria(Element):
         else:
             csys = Cartesian.create_by_normal(o, n)
         super(Tria,self).__init__(name,[node_i,node_j,node_k],2,dof,csys)
-        self.__area=0.5*np.linalg.det(np.array([[1,1,1],
+        self.__area=0.5*np.linalg.det(np.array([n,
                                     [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z],
                                     [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
 
-- 
2.43.0


From e95450cdae3315cc62893308ba56f2622f124af8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 39/45] fix: triangular element numbered clockwise in a
 horizontal plane

---
 hyperstatic/core/fe_model/element/tria/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/element/tria/__init__.py b/hyperstatic/core/fe_model/element/tria/__init__.py
index 724c93f..731b96c 100644
--- a/hyperstatic/core/fe_model/element/tria/__init__.py
+++ b/hyperstatic/core/fe_model/element/tria/__init__.py
@@ -16,7 +16,7 @@ class Tria(Element):
         n=np.cross(vec1,vec2)
         n=n/np.linalg.norm(n)
         tol=Tolerance.abs_tol()
-        if np.linalg.norm(n-np.array([0,0,1]))<tol:
+        if np.linalg.norm(n-np.array([0,0,1]))<tol or np.linalg.norm(n+np.array([0,0,1]))<tol:
             csys = Cartesian.create_by_normal(o, n, guide=[0,1,0])
         else:
             csys = Cartesian.create_by_normal(o, n)
-- 
2.43.0


From 0e3032783852145820c89e2a87acc17d1b02eb03 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 40/45] fix: area of a quadrilateral element

---
 .../core/fe_model/element/quad/__init__.py       | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/quad/__init__.py b/hyperstatic/core/fe_model/element/quad/__init__.py
index 4b9b781..2423bdc 100644
--- a/hyperstatic/core/fe_model/element/quad/__init__.py
+++ b/hyperstatic/core/fe_model/element/quad/__init__.py
@@ -18,20 +18,8 @@ class Quad(Element):
         else:
             csys = Cartesian.create_by_normal(o, n)
         super(Quad,self).__init__(name,[node_i,node_j,node_k,node_l],2,dof,csys)
-        #area is considered as the average of trangles generated by splitting the quand with diagonals
-        area=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z],
-                            [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z]]))
-        self.__area=area/4
+        #area by the cross product of the diagonals
+        self.__area=0.5*np.linalg.norm(np.cross(node_k.loc-node_i.loc,node_l.loc-node_j.loc))
 
     @property
     def area(self):
-- 
2.43.0


From c298d4d88b44dde8e89adbd12d0774626c7e7233 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 41/45] fix: triangular element ignored the element type of its
 section

---
 hyperstatic/core/fe_model/element/tria/DKT.py | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/tria/DKT.py b/hyperstatic/core/fe_model/element/tria/DKT.py
index af5212d..f0b7cc3 100644
--- a/hyperstatic/core/fe_model/element/tria/DKT.py
+++ b/hyperstatic/core/fe_model/element/tria/DKT.py
@@ -15,7 +15,6 @@ class DKT(Tria):
         super(DKT,self).__init__(name,node_i, node_j, node_k, 9)
 
     def integrate_K(self):
-        bBDBp=metaDKT.get_binary_BDB()
         X=np.array([
             self.nodes[0].loc,
             self.nodes[1].loc,
@@ -25,19 +24,24 @@ class DKT(Tria):
         E=self.__section.E
         mu=self.__section.mu
         t=self.__section.t
-        def func(x):
-            res=[]
-            for xi,eta in zip(x[0],x[1]):
-                res.append(bBDBp(E,mu,t,xi,eta,*tuple(X_.reshape(X_.size))))
-            return np.stack(res,axis=2)
-        scheme = quadpy.t2.get_good_scheme(12)
-        Kp =2*self.area* scheme.integrate(
-            func,
-            [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]],
-        )
-        bBDBm=T9.get_binary_BDB()
-        Km = 2*t*self.area*bBDBm(E,mu,t,*tuple(X_.reshape(X_.size)))
-        
+        Km=np.zeros((6,6))
+        Kp=np.zeros((9,9))
+        if self.__section.ele_type=="plate" or self.__section.ele_type=="shell":
+            bBDBp=metaDKT.get_binary_BDB()
+            def func(x):
+                res=[]
+                for xi,eta in zip(x[0],x[1]):
+                    res.append(bBDBp(E,mu,t,xi,eta,*tuple(X_.reshape(X_.size))))
+                return np.stack(res,axis=2)
+            scheme = quadpy.t2.get_good_scheme(12)
+            Kp =2*self.area* scheme.integrate(
+                func,
+                [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]],
+            )
+        if self.__section.ele_type=="membrane" or self.__section.ele_type=="shell":
+            bBDBm=T9.get_binary_BDB()
+            Km = 2*t*self.area*bBDBm(E,mu,t,*tuple(X_.reshape(X_.size)))
+
         K=np.zeros((18,18))
         for i in range(3):
             for j in range(3):
-- 
2.43.0


From 3013dbed978f8fbe24b381a157040a14c9b80db3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:44:16 +0000
Subject: [PATCH 42/45] fix: DKQ plate kernel used the wrong inverse Jacobian
 terms (patch test on non-square elements)

---
 .../fe_model/meta/plates/metaDKQ/__init__.py  |   4 +-
 .../meta/plates/metaDKQ/wrapped_code_0.c      | 288 +++++++++---------
 2 files changed, 146 insertions(+), 146 deletions(-)

diff --git a/hyperstatic/core/fe_model/meta/plates/metaDKQ/__init__.py b/hyperstatic/core/fe_model/meta/plates/metaDKQ/__init__.py
index 1c685cc..9b4aa24 100644
--- a/hyperstatic/core/fe_model/meta/plates/metaDKQ/__init__.py
+++ b/hyperstatic/core/fe_model/meta/plates/metaDKQ/__init__.py
@@ -102,10 +102,10 @@ J22=0.25*(y32+y41+xi*(y12+y34))
 J=syp.Matrix([[J11,J12],[J21,J22]])
 
 detJ=1/8*(y42*x31-y31*x42)+xi/8*(y34*x21-y21*x34)+eta/8*(y41*x32-y32*x41)
-j11=J11/detJ
+j11=J22/detJ
 j12=-J12/detJ
 j21=-J21/detJ
-j22=J22/detJ
+j22=J11/detJ
 
 ddx=lambda f : syp.diff(f,xi)
 ddy=lambda f : syp.diff(f,eta)
diff --git a/hyperstatic/core/fe_model/meta/plates/metaDKQ/wrapped_code_0.c b/hyperstatic/core/fe_model/meta/plates/metaDKQ/wrapped_code_0.c
index 04f0a45..a418196 100644
--- a/hyperstatic/core/fe_model/meta/plates/metaDKQ/wrapped_code_0.c
+++ b/hyperstatic/core/fe_model/meta/plates/metaDKQ/wrapped_code_0.c
@@ -10,149 +10,149 @@
 
 void autofunc(double E, double mu, double t, double xi, double eta, double x1, double y1, double x2, double y2, double x3, double y3, double x4, double y4, double *out_3370079445872163030) {
 
-   out_3370079445872163030[0] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[1] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[2] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[3] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[4] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[5] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[6] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[7] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[8] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[9] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[10] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[11] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[12] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[13] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[14] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[15] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[16] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[17] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[18] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[19] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[20] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[21] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[22] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[23] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[24] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[25] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[26] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[27] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[28] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[29] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[30] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[31] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[32] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[33] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[34] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[35] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[36] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[37] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[38] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[39] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[40] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[41] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[42] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[43] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[44] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[45] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[46] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[47] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[48] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[49] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[50] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[51] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[52] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[53] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[54] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[55] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[56] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[57] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[58] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[59] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[60] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[61] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[62] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[63] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[64] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[65] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[66] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[67] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[68] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[69] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[70] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[71] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[72] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[73] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[74] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[75] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[76] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[77] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[78] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[79] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[80] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[81] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[82] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[83] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[84] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[85] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[86] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[87] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[88] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[89] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[90] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[91] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[92] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[93] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[94] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[95] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[96] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[97] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[98] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[99] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[100] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[101] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[102] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[103] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[104] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[105] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[106] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[107] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[108] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[109] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[110] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[111] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[112] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[113] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[114] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[115] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[116] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[117] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[118] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[119] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[120] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[121] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[122] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[123] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[124] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[125] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[126] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[127] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[128] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[129] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[130] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[131] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[132] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[133] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[134] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[135] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[136] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[137] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[138] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[139] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[140] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[141] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[142] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[143] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[0] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[1] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[2] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[3] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[4] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[5] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[6] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[7] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[8] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[9] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[10] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[11] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[12] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[13] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[14] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[15] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[16] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[17] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[18] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[19] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[20] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[21] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[22] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[23] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[24] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[25] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[26] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[27] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[28] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[29] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[30] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[31] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[32] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[33] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[34] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[35] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[36] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[37] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[38] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[39] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[40] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[41] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[42] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[43] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[44] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[45] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[46] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[47] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[48] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[49] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[50] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[51] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[52] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[53] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[54] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[55] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[56] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[57] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[58] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[59] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[60] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[61] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[62] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[63] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[64] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[65] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[66] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[67] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[68] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[69] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[70] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[71] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[72] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[73] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[74] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[75] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[76] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[77] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[78] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[79] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[80] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[81] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[82] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[83] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[84] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[85] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[86] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[87] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[88] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[89] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[90] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[91] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[92] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[93] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[94] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[95] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[96] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[97] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[98] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[99] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[100] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[101] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[102] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[103] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[104] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[105] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[106] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[107] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[108] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[109] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[110] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[111] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[112] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[113] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[114] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[115] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[116] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[117] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[118] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[119] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[120] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[121] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[122] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[123] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[124] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[125] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[126] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[127] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[128] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[129] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[130] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[131] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[132] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[133] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[134] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[135] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[136] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[137] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[138] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[139] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[140] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[141] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[142] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[143] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
 
 }
-- 
2.43.0


From 67b62c824b4980fb1b97a0aaacdb2b9f69ee0cea Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:03:59 +0000
Subject: [PATCH 43/45] fix: direct time integration uses the displacements of
 the present and the previous step, for any number of DOFs

---
 hyperstatic/core/fe_solver/dynamic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index e1a8866..a7c24eb 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -231,7 +231,8 @@ class TimeHistorySolver(Solver):
         for t in range(tmin):
             f=assembly.assemble_f(casename,t)
             f_=assembly.assemble_boundary(casename,f)
-            f_hat=(f_.reshape(1,6)-(K_-c2*M_).dot(u[t,:])-(c0*M_-c1*C_).dot(u[t-1,:])).reshape(6,1)
+            #row t+1 is the displacement at step t, row t that at step t-1
+            f_hat=f_.reshape(-1)-(K_-c2*M_).dot(u[t+1,:])-(c0*M_-c1*C_).dot(u[t,:])
             d,info=sl.cg(M_hat,f_hat)
             u=np.vstack([u,d])
             # v.append(c1*(-a[t-1]+a[t+1]))
-- 
2.43.0


From 2cac4860b001be3d21dbf514643b5f00778224ca Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:04:24 +0000
Subject: [PATCH 44/45] fix: direct time integration uses the damping ratio of
 the case

---
 hyperstatic/core/fe_solver/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index a7c24eb..8911167 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -200,8 +200,8 @@ class TimeHistorySolver(Solver):
         ########Simple damping
 
         ########Reileigh Damping
-        xi_i=0.05
-        xi_j=0.02
+        xi_i=damping
+        xi_j=damping
         T_i=2.0
         T_j=1.0
         omega_i=2*np.pi/T_i
-- 
2.43.0


From d875f1b5723601299dc6abaa6f1a36e853ad1c22 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:31:23 +0000
Subject: [PATCH 45/45] fix: Api.set_nodal_restraint reports False for a node
 that does not exist

---
 hyperstatic/core/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index fe5c5ce..3c47c67 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -558,8 +558,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.set_nodal_restraint(node,u1,u2,u3,r1,r2,r3)
-            return True
+            return self.__model.set_nodal_restraint(node,u1,u2,u3,r1,r2,r3)
         except Exception as e:
             logging.warning(str(e)+" when setting nodal restraints")
             return False
-- 
2.43.0

