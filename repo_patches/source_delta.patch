From 7a8a1c13fd5aeeaf719be6590c93d32ba7c135a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 01/22] fix: wake skew angle follows the current wind and yaw
 position

compute_u stored the skew angle of the first query in self.chi; later calls to
update_yaw_pos or update_wind were then ignored by the skew.
---
 wiz/WindTurbine.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 6405d68..58ec255 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -240,6 +240,22 @@ class WindTurbine:
         return points
 
 
+    @property
+    def chi(self):
+        """ Wake skew angle [rad]: the value prescribed using `set_chi`, if any.
+        Otherwise, determined from the current wind and yaw position """
+        if self._chi is not None:
+            return self._chi
+        # Detecting whether our vertical convention match, and define chi
+        T_c2g=np.dot(self.T_wt2g,self.T_c2wt)
+        e_vert_c = np.dot(T_c2g.T , self.e_vert_g)
+        # TODO TODO chi needs induction effect!
+        return np.sign(e_vert_c.ravel()[1])* (self.yaw_wind-self.yaw_pos)
+
+    @chi.setter
+    def chi(self,chi):
+        self._chi=chi
+
     def set_chi(self,chi):
         self.chi=chi
     
@@ -269,11 +285,6 @@ class WindTurbine:
         # Control points in "Cylinder coordinate system" (rotation only)
         T_c2g=np.dot(self.T_wt2g,self.T_c2wt)
         Xc,Yc,Zc = transform_T(T_c2g, Xg,Yg,Zg)
-        # Detecting whether our vertical convention match, and define chi
-        e_vert_c = np.dot(T_c2g.T , self.e_vert_g)
-        if self.chi is None:
-            # TODO TODO chi needs induction effect!
-            self.chi= np.sign(e_vert_c.ravel()[1])* (self.yaw_wind-self.yaw_pos)
         if self.gamma_t is None:
             raise Exception('Please set loading with `update_loading` before calling `compute_u`')
 
-- 
2.43.0


From 1af9fe945567dc6554cb3408b5db2044ace9c579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 02/22] fix: yaw_wind and yaw_error are NaN when rounding makes
 the cosine exceed one

---
 wiz/WindTurbine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 58ec255..b6ce565 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -197,9 +197,9 @@ class WindTurbine:
         e_w    = u_horz/np.linalg.norm(u_horz)
         sign = np.sign  ( np.dot(np.cross(self.e_horz_g.T, self.U0_g.T),self.e_vert_g) )
         if sign==0:
-            yaw_wind = np.arccos(np.dot(e_w.T,self.e_horz_g))
+            yaw_wind = np.arccos(np.clip(np.dot(e_w.T,self.e_horz_g),-1,1))
         else:
-            yaw_wind = sign * np.arccos(np.dot(e_w.T,self.e_horz_g))
+            yaw_wind = sign * np.arccos(np.clip(np.dot(e_w.T,self.e_horz_g),-1,1))
         return yaw_wind.ravel()[0]
 
     @property
@@ -209,7 +209,7 @@ class WindTurbine:
         u_skew  = self.U0_g-np.dot(self.U0_g.T,e_horz)*e_horz-np.dot(self.U0_g.T,self.e_vert_g)*self.e_vert_g
         e_w=self.U0_g/np.linalg.norm(self.U0_g)
         yaw_sign=np.sign  ( np.dot(np.cross(e_w.T,self.e_shaft_g.T),self.e_vert_g) )
-        yaw_error=yaw_sign * np.arccos(np.dot(e_w.T,self.e_shaft_g))
+        yaw_error=yaw_sign * np.arccos(np.clip(np.dot(e_w.T,self.e_shaft_g),-1,1))
 #         U0_wt = np.dot( self.T_wt2g.T , self.U0_g)
 #         e_skew=u_skew/np.linalg.norm(u_skew)
 #         print('e_skew',e_skew.T)
-- 
2.43.0


From 4c998f0d3b6a3cb721dcb7dda3d3e128a5c9aa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 03/22] fix: turbine keeps views on the arrays given for its
 position, wind and axes

A caller reusing its buffer silently moved the turbine or changed its wind.
---
 wiz/WindTurbine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index b6ce565..103e022 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -89,9 +89,9 @@ class WindTurbine:
         self.Model=Model
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
-        self.e_shaft_g = np.asarray(e_shaft_yaw0).ravel().reshape(3,1)
+        self.e_shaft_g = np.array(e_shaft_yaw0).ravel().reshape(3,1)
         self.e_shaft_g0= self.e_shaft_g
-        self.e_vert_g  = np.asarray(e_vert).ravel().reshape(3,1)
+        self.e_vert_g  = np.array(e_vert).ravel().reshape(3,1)
         v_horz0 = self.e_shaft_g -np.dot(self.e_shaft_g.T,self.e_vert_g)
         self.e_horz_g = v_horz0/np.linalg.norm(v_horz0)
         self.e_FAST_z = self.e_vert_g
@@ -115,10 +115,10 @@ class WindTurbine:
         self.e_shaft_g=np.dot(self.T_wt2g , self.e_shaft_g0)
 
     def update_position(self,r_hub):
-        self.r_hub=np.asarray(r_hub).ravel().reshape(3,1)
+        self.r_hub=np.array(r_hub).ravel().reshape(3,1)
 
     def update_wind(self,U0_g):
-        self.U0_g = np.asarray(U0_g).ravel().reshape(3,1)
+        self.U0_g = np.array(U0_g).ravel().reshape(3,1)
 
     def update_loading(self,r=None,Ct=None,Gamma=None,Lambda=None,nCyl=1,gamma_t_Ct=None):
         """ 
-- 
2.43.0


From 64b8ba7a08cc42bd99239fe82abb3d81a44e75fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 04/22] fix: update_loading keeps the caller's r and Ct arrays

---
 wiz/WindTurbine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 103e022..f6214a2 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -169,7 +169,7 @@ class WindTurbine:
         if gamma_t_Ct is not None:
             if Ct is None:
                 raise Exception('Provide `Ct` along `gamma_t_Ct`')
-            self.gamma_t = gamma_t_Ct(Ct)
+            self.gamma_t = np.array(gamma_t_Ct(Ct))
             self.gamma_l=None # TODO
             self.Gamma_r=None # TODO
         elif Ct is not None:
@@ -185,8 +185,8 @@ class WindTurbine:
         #print('Gamma_/2piR',-self.Gamma_r/(2*np.pi*self.R))
         #print(misc)
         self.Lambda=Lambda
-        self.r=r
-        self.Ct=Ct
+        self.r=np.array(r)
+        self.Ct=None if Ct is None else np.array(Ct)
 
     @property
     def yaw_wind(self):
-- 
2.43.0


From 0ac186b291465d4a533b247f527776313ecc8153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 05/22] fix: remove debug prints from the layout setter

A failing console in the middle of the loop left the farm with a mix of old and
new positions.
---
 wiz/WindFarm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/wiz/WindFarm.py b/wiz/WindFarm.py
index a3b4794..ba43813 100644
--- a/wiz/WindFarm.py
+++ b/wiz/WindFarm.py
@@ -63,13 +63,11 @@ class WindFarm(list):
 
     @layout.setter
     def layout(self, layout):
-        print('setter')
         layout = np.asarray(layout)
         if layout.shape != (self.nWT,3):
             raise Exception('Wrong layout shape. Layout should be {}'.format((self.nWT,3)))
         for iWT,WT in enumerate(self):
             r_hub=layout[iWT,:]
-            print('r_hub',r_hub)
             WT.update_position(r_hub)
 
     def tostring(self,short=True):
-- 
2.43.0


From 25c8497cdb82c781c09286f2b55669a74931009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 06/22] fix: update_yaw_pos changes the reported yaw when it
 rejects its argument

---
 wiz/WindTurbine.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index f6214a2..f215041 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -109,10 +109,12 @@ class WindTurbine:
         """ 
             yaw : radians, turbine yaw angle (with respect to the 0 yaw position defined at init)
         """
-        self.yaw_pos = yaw
-        self.T_wt2g  = RotMat_AxisAngle(self.e_vert_g,yaw)
+        T_wt2g       = RotMat_AxisAngle(self.e_vert_g,yaw)
         # Rotating the shaft vector so that its coordinate follow the new yaw position
-        self.e_shaft_g=np.dot(self.T_wt2g , self.e_shaft_g0)
+        e_shaft_g    = np.dot(T_wt2g , self.e_shaft_g0)
+        self.yaw_pos = yaw
+        self.T_wt2g  = T_wt2g
+        self.e_shaft_g=e_shaft_g
 
     def update_position(self,r_hub):
         self.r_hub=np.array(r_hub).ravel().reshape(3,1)
-- 
2.43.0


From 46d2c4b81d653df2ff9da6077d2b82988a357bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 07/22] fix: solver overwrites the first element of the
 caller's r_cp and lambda_r

---
 wiz/Solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index b1a6be4..7257664 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -78,6 +78,7 @@ def InductionsFromCirculation_VC_Cont(vr_bar,lambda_r,k,bSwirl,method='analytica
     misc={}
     # Safety
     if lambda_r[0]==0:
+        lambda_r = np.array(lambda_r, dtype=float)
         lambda_r[0]=lambda_r[1]*0.01;
     # --- Finding Cylinders intensities
     if method.lower()=='analytical':
@@ -123,6 +124,7 @@ def WakeVorticityFromCirculation_Cont(r_cp,Gamma_cp,R,U0,Omega,bSwirl,method='an
     r_cp     = np.asarray(r_cp).ravel()
     Gamma_cp = np.asarray(Gamma_cp).ravel()
     if r_cp[0]==0:
+        r_cp = np.array(r_cp, dtype=float)
         r_cp[0]=r_cp[1]*0.5;
     # Non dimensional parameters
     k        = Omega*Gamma_cp/(np.pi*U0**2)
-- 
2.43.0


From 1bfa29edc08c3bbb144fcc7eee9315353f0fe80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 08/22] fix: warning about cylinders inside the control points
 fails, and starts a debugger

---
 wiz/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 7257664..7fa5b74 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -11,6 +11,7 @@ from __future__ import division
 from __future__ import print_function
 # --- General
 import unittest
+import warnings
 import numpy as np
 import scipy.optimize as sciopt
 import scipy.integrate as sciint
@@ -172,7 +173,6 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
     # --- Checks
     if np.amax(r_cyl) < np.amax(r_cp):
         warnings.warn('Cylinders are assumed to enclose the control points')
-        import pdb; pdb.set_trace()
     if r_cyl[0] == 0:
         raise Exception('First cylinder at 0, impossible')
 
-- 
2.43.0


From 95415cf28c4b728344d1f02f4f00a3ad8676d432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 09/22] fix: CirculationFromPrescribedCt returns the caller's
 own array without swirl

---
 wiz/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 7fa5b74..c3756cf 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -59,7 +59,7 @@ def CirculationFromPrescribedCt(vr_bar,vCt,Lambda,bSwirl):
                 res=sciopt.minimize_scalar(lambda k:np.abs(k*(1+k/(4*lambda_r**2))-Ct), bounds=[0,1.8], method='bounded')
                 vk[ir] = res.x
     else:
-        vk = vCt
+        vk = np.array(vCt)
     return vk
 
 
-- 
2.43.0


From a261c6cdb7400bc08e453ea3cf3fa9dd129e26af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 10/22] fix: one NaN among the arguments of ellipticPiCarlson
 spoils all its other values

The residual became NaN, which stopped the iterations for the whole array.
---
 wiz/elliptic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/elliptic.py b/wiz/elliptic.py
index 1d7f98d..9178e68 100644
--- a/wiz/elliptic.py
+++ b/wiz/elliptic.py
@@ -46,7 +46,7 @@ def ellipticPiCarlson(n,m):
             s13 = s12*s1
             r = 5./26 * s13 + 3./ 26 * s2 ** 2
             RF = (mu**-0.5) * (1 + s1/5 + s2/7 + s12/6 + 3/11*s1*s2 + r)
-            res = np.amax(np.abs(RF - RFo))
+            res = np.fmax.reduce(np.abs(RF - RFo),axis=None) # NaN points are ignored
             RFo = RF
             xo = xn
             yo = yn
@@ -109,7 +109,7 @@ def ellipticPiCarlson(n,m):
                 rhs1 = rhs1 + 3 * 4 ** - nIt * ellipticRC(alfa,bet)
                 rhs2 = (4**-(nIt+1) * mu**-1.5) * (1+3/7*s1 + s2/3 + 3/22*s12 + 3/11*s3 + 3/13*(s1*s2 + s4) + r)
                 RJLoc = rhs1 + rhs2
-                res = np.amax(np.abs(RJLoc - RJo))
+                res = np.fmax.reduce(np.abs(RJLoc - RJo),axis=None) # NaN points are ignored
                 RJo = RJLoc
                 xo = xn
                 yo = yn
@@ -140,7 +140,7 @@ def ellipticPiCarlson(n,m):
             s5 = s4*s
             s6 = s5*s
             RC = (mu**-0.5)*(1+3/10*s2 + s3/7 + 3/8*s4 + 9/22*s5 + 159/208*s6)
-            res = np.amax(np.abs(RC - RCo))
+            res = np.fmax.reduce(np.abs(RC - RCo),axis=None) # NaN points are ignored
             RCo = RC
             xo = xn
             yo = yn
-- 
2.43.0


From bd3e8320b704e5e100ff82dafece09f5ed30deaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 11/22] fix: svc_root_u formula selected for all points by one
 NaN, and shape of its u_r

---
 wiz/VortexCylinderSkewed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index d1001c9..59a78c7 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -199,7 +199,7 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
         u_x   = -np.sin(vpsi)*u_psi
         u_y   =  np.cos(vpsi)*u_psi
     else:
-        if (np.max(np.abs(vz)) > 0):
+        if np.any(vz!=0):
             # need to use general formula
             u_x = np.zeros(vr.shape)
             u_y = np.zeros(vr.shape)
@@ -223,7 +223,7 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
     # Reshaping to input shape
     u_z   =  u_z.reshape(shape_in) 
     if polar_out:
-        u_r   = u_x * np.cos(vpsi) + u_y * np.sin(vpsi)
+        u_r   = (u_x * np.cos(vpsi) + u_y * np.sin(vpsi)).reshape(shape_in)
         u_psi = u_psi.reshape(shape_in) 
         return (u_r,u_psi,u_z)
     else:
-- 
2.43.0


From 71be129511c075cbd928d54e1cd33c7e0114219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 12/22] fix: svc_longi_u returns u_psi as radial velocity with
 polar_out

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 59a78c7..36c09bb 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -153,7 +153,7 @@ def svc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,m=0,ntheta=180,polar_out=False):
             u_psi[i] = np.trapz((r - m*z*np.cos(psi) - np.cos(vtheta-psi))*DenInv,vtheta)
             u_z[i]   = np.trapz(m * (-np.sin(vtheta) + r*np.sin(psi))     *DenInv,vtheta)
         # Reshaping to input shape
-        u_r   =  u_psi.reshape(shape_in) 
+        u_r   =  u_r.reshape(shape_in)   
         u_psi =  u_psi.reshape(shape_in) 
         u_z   =  u_z.reshape(shape_in)   
         return (u_r,u_psi,u_z)
-- 
2.43.0


From 274624f88d55de6e68f452e2e964d6d83ca4c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 13/22] fix: interrupted savePlane leaves a mix of the new and
 the previous plane

---
 coupling_examples/helper_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coupling_examples/helper_functions.py b/coupling_examples/helper_functions.py
index 76d2ae2..f7d8364 100644
--- a/coupling_examples/helper_functions.py
+++ b/coupling_examples/helper_functions.py
@@ -40,6 +40,10 @@ def savePlane(x,y=None,u=None,v=None,base='',U0=None):
         v=v/U0
 
     base = os.path.normpath(base)
+    # Removing a previous plane first, otherwise an interrupted save leaves a mix of two planes
+    for s in ['x','y','u','v']:
+        if os.path.exists(base+s+'.npy'):
+            os.remove(base+s+'.npy')
     np.save(base+'x.npy',x)
     np.save(base+'y.npy',y)
     np.save(base+'u.npy',u)
-- 
2.43.0


From bc0b7df07924db27d7d8e754a5ea654de7ba960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 14/22] fix: update_loading which fails half way changes the
 wake strength

---
 wiz/WindTurbine.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index f215041..ebf1958 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -171,13 +171,13 @@ class WindTurbine:
         if gamma_t_Ct is not None:
             if Ct is None:
                 raise Exception('Provide `Ct` along `gamma_t_Ct`')
-            self.gamma_t = np.array(gamma_t_Ct(Ct))
-            self.gamma_l=None # TODO
-            self.Gamma_r=None # TODO
+            gamma_t = np.array(gamma_t_Ct(Ct))
+            gamma_l=None # TODO
+            Gamma_r=None # TODO
         elif Ct is not None:
-            self.gamma_t,self.gamma_l,self.Gamma_r,misc=WakeVorticityFromCt(r,Ct,self.R,U0,Omega)
+            gamma_t,gamma_l,Gamma_r,misc=WakeVorticityFromCt(r,Ct,self.R,U0,Omega)
         elif Gamma is not None:
-            self.gamma_t,self.gamma_l,self.Gamma_r,misc=WakeVorticityFromGamma(r,Gamma,self.R,U0,Omega)
+            gamma_t,gamma_l,Gamma_r,misc=WakeVorticityFromGamma(r,Gamma,self.R,U0,Omega)
         else:
             raise Exception('Unknown loading spec')
         #self.gamma_t=self.gamma_t*1.06
@@ -186,9 +186,15 @@ class WindTurbine:
         #print('Gamma_r    ',self.Gamma_r)
         #print('Gamma_/2piR',-self.Gamma_r/(2*np.pi*self.R))
         #print(misc)
+        r =np.array(r)
+        Ct=None if Ct is None else np.array(Ct)
+        # Storing only when nothing can fail anymore, so that a failed update changes nothing
+        self.gamma_t=gamma_t
+        self.gamma_l=gamma_l
+        self.Gamma_r=Gamma_r
         self.Lambda=Lambda
-        self.r=np.array(r)
-        self.Ct=None if Ct is None else np.array(Ct)
+        self.r=r
+        self.Ct=Ct
 
     @property
     def yaw_wind(self):
-- 
2.43.0


From dc7215e1a92bae683475d0669ebf50361e2887e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 15/22] fix: layout which fails half way moves part of the
 turbines

---
 wiz/WindFarm.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/wiz/WindFarm.py b/wiz/WindFarm.py
index ba43813..ece937e 100644
--- a/wiz/WindFarm.py
+++ b/wiz/WindFarm.py
@@ -66,9 +66,16 @@ class WindFarm(list):
         layout = np.asarray(layout)
         if layout.shape != (self.nWT,3):
             raise Exception('Wrong layout shape. Layout should be {}'.format((self.nWT,3)))
-        for iWT,WT in enumerate(self):
-            r_hub=layout[iWT,:]
-            WT.update_position(r_hub)
+        r_hub_old=[WT.r_hub for WT in self]
+        try:
+            for iWT,WT in enumerate(self):
+                r_hub=layout[iWT,:]
+                WT.update_position(r_hub)
+        except:
+            # Either all the turbines are moved, or none
+            for WT,r_hub in zip(self,r_hub_old):
+                WT.r_hub=r_hub
+            raise
 
     def tostring(self,short=True):
         s ='class WindFarm({}):\n'.format(self.name)
-- 
2.43.0


From 2f1854d7393a670eba57ff383401bf9f9df2135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 16/22] fix: solver returns the caller's own r_cp and Gamma_cp
 arrays in misc

---
 wiz/Solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index c3756cf..955387e 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -122,8 +122,8 @@ def WakeVorticityFromCirculation_Cont(r_cp,Gamma_cp,R,U0,Omega,bSwirl,method='an
     Uses continuous formulation to find wake vorticity that matches a given circulation distribution
     (need to solve for pitch angle, and hence induction)
     """
-    r_cp     = np.asarray(r_cp).ravel()
-    Gamma_cp = np.asarray(Gamma_cp).ravel()
+    r_cp     = np.array(r_cp).ravel() # copies: returned in misc
+    Gamma_cp = np.array(Gamma_cp).ravel()
     if r_cp[0]==0:
         r_cp = np.array(r_cp, dtype=float)
         r_cp[0]=r_cp[1]*0.5;
@@ -158,8 +158,8 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
     """ 
     Implements discrete algorithm from [1] to find gamma_t, and the inductions
     """
-    r_cp     = np.asarray(r_cp).ravel()
-    Gamma_cp = np.asarray(Gamma_cp).ravel()
+    r_cp     = np.array(r_cp).ravel() # copies: returned in misc
+    Gamma_cp = np.array(Gamma_cp).ravel()
     if r_cyl is None:
         r_cyl    = np.zeros(r_cp.shape)
         if len(r_cyl)==1:
-- 
2.43.0


From 8130fbff584f9d63b875c5fe7489822520db1756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:54 +0000
Subject: [PATCH 17/22] fix: no vector orthogonal to a shaft along the diagonal
 of the axes

---
 wiz/WindTurbine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index ebf1958..5ac8512 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -32,11 +32,12 @@ def RotMat_AxisAngle(u,theta):
 def orth_vect(u):
     """ Given one vector, returns a 3x1 orthonormal vector to it"""
     u=(u/np.linalg.norm(u)).ravel()
-    if abs(u[0])>=1/np.sqrt(3):
+    # NOTE: the largest component is at least 1/sqrt(3), up to rounding errors
+    if abs(u[0])>=0.577:
         v = np.array([[-u[1]],[u[0]] ,[0]]    )
-    elif abs(u[1])>=1/np.sqrt(3):
+    elif abs(u[1])>=0.577:
         v = np.array([[0]    ,[-u[2]],[u[1]]] )
-    elif abs(u[2])>=1/np.sqrt(3):
+    elif abs(u[2])>=0.577:
         v = np.array([[u[2]] ,[0]    ,[-u[0]]])
     else:
         raise Exception('Cannot find orthogonal vector to a zero vector: {} '.format(u))
-- 
2.43.0


From a7a13a88c17ac9ae414cb37bb24b259aba50b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 18/22] fix: velocity wrong or NaN upstream of the cylinder
 edge when r differs from R by round-off

---
 wiz/VortexCylinder.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index d3c0836..4554123 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -63,6 +63,16 @@ def vc_tang_u_doublet(Xcp,Ycp,Zcp,gamma_t=-1,R=1,r_bar_Cut=6, polar_out=True):
     return ur, uz
 
 
+def RPI_close_to_R(r,R,z,KK,EE,PI):
+    """ Returns (R-r)/(R+r)*PI(k0^2,k^2). When r tends to R, PI tends to infinity and its value depends on
+    round-off errors. The product has a finite limit, so its asymptotic form is used instead.  """
+    RPI = (R - r)/(R + r)*PI
+    bR  = np.abs(R-r) < 1e-4*np.minimum(np.abs(z),R)
+    z   = np.where(bR,z,R)
+    kp2 = ((R-r)**2 + z**2)/((R+r)**2 + z**2) # 1-k^2
+    RPIlim = np.sign(R-r)*np.pi/2*np.sqrt(1 + (R+r)**2/z**2) + (R-r)/(R+r)*(KK - EE/kp2)
+    return np.where(bR, RPIlim, RPI)
+
 def vc_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,polar_out=True,epsilon=0):
     """ Induced velocity from a semi infinite cylinder extending along the z axis, starting at z=0
     INPUTS:
@@ -142,7 +152,11 @@ def vc_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,polar_out=True,epsilon=0):
         epsilon2= r*0+epsilon**2
         b=z>=0
         T1[b]=1/2*(1 + (R-r[b])*np.sqrt(1+epsilon2[b]/(R+r[b])**2)/np.sqrt((R-r[b])**2 +epsilon2[b]))
-    uz[bnIz] = gamma_t/2*( T1 + z*k/(2*np.pi*np.sqrt(r * R)) *(KK + (R - r)/(R + r)*PI ) )
+    if epsilon==0:
+        RPI = RPI_close_to_R(r,R,z,KK,EE,PI)
+    else:
+        RPI = (R - r)/(R + r)*PI
+    uz[bnIz] = gamma_t/2*( T1 + z*k/(2*np.pi*np.sqrt(r * R)) *(KK + RPI ) )
     
     if polar_out:
         return ur,uz
@@ -170,8 +184,8 @@ def vc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,polar_out=False):
     m0    = 4*vr*R/((vr+R)**2)
     K     = ellipk(m)
     PI    = ellipticPiCarlson(m0,m)
-    Ar    = (vr-R+np.abs(R-vr))/(2*np.abs(R-vr))
-    Az    = vz*np.sqrt(m)/(2*np.pi*np.sqrt(vr*R))*(K-(R-vr)/(R+vr)*PI)
+    Ar    = np.heaviside(vr-R,0.5)
+    Az    = vz*np.sqrt(m)/(2*np.pi*np.sqrt(vr*R))*(K-RPI_close_to_R(vr,R,vz,K,ellipe(m),PI))
     u_psi = gamma_l/2*R/vr*(Ar +Az)
     u_z = np.zeros(shape_in)
     if polar_out:
-- 
2.43.0


From 08eba5a2f83e1dc5453e21389f13ec0d970c8bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 19/22] fix: NaN on the axis with a root vortex or longitudinal
 vorticity

---
 wiz/VortexCylinder.py       | 5 ++++-
 wiz/VortexCylinderSkewed.py | 4 +++-
 wiz/VortexLine.py           | 5 ++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index 4554123..5db01fd 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -180,13 +180,16 @@ def vc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,polar_out=False):
     EPSILON_AXIS=1e-7; # relative threshold for using axis formula
     # Flattening, and dimensionless!
     shape_in=vr.shape
+    # No velocity on the axis
+    bAxis = vr < (EPSILON_AXIS * R)
+    vr    = np.where(bAxis,R/2,vr)
     m     = 4*vr*R/((vr+R)**2+vz**2)
     m0    = 4*vr*R/((vr+R)**2)
     K     = ellipk(m)
     PI    = ellipticPiCarlson(m0,m)
     Ar    = np.heaviside(vr-R,0.5)
     Az    = vz*np.sqrt(m)/(2*np.pi*np.sqrt(vr*R))*(K-RPI_close_to_R(vr,R,vz,K,ellipe(m),PI))
-    u_psi = gamma_l/2*R/vr*(Ar +Az)
+    u_psi = np.where(bAxis, 0, gamma_l/2*R/vr*(Ar +Az))
     u_z = np.zeros(shape_in)
     if polar_out:
         u_r = np.zeros(shape_in)
diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 36c09bb..6b3cd7b 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -195,7 +195,9 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
     # --- Computes ux, uy, uz, upsi
     u_z = np.zeros(vr.shape)
     if (m == 0):
-        u_psi = np.multiply(Gamma_r/(4*np.pi*vr), (1+vz/np.sqrt(vr** 2 + vz**2)))
+        bAxis = vr==0 # No velocity on the axis
+        vr    = np.where(bAxis,1,vr)
+        u_psi = np.where(bAxis, 0, np.multiply(Gamma_r/(4*np.pi*vr), (1+vz/np.sqrt(vr** 2 + vz**2))))
         u_x   = -np.sin(vpsi)*u_psi
         u_y   =  np.cos(vpsi)*u_psi
     else:
diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index 065dca8..ccc28d1 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -78,7 +78,10 @@ def vl_semiinf_straight_u_polar(vr,vpsi,vz,Gamma_r=-1,polar_out=False):
     vpsi     = np.asarray(vpsi)
     vz       = np.asarray(vz)
 
-    u_psi = Gamma_r/(4*np.pi*vr) * ( 1 + vz/np.sqrt(vr**2 + vz**2) ) 
+    # No velocity on the axis
+    bAxis = vr==0
+    vr    = np.where(bAxis,1,vr)
+    u_psi = np.where(bAxis, 0, Gamma_r/(4*np.pi*vr) * ( 1 + vz/np.sqrt(vr**2 + vz**2) ))
 
     u_z = np.zeros(shape_in)
     if polar_out:
-- 
2.43.0


From 652182737a98e7cf4b1bd652867c93ae4fbe87dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:55 +0000
Subject: [PATCH 20/22] fix: svc_root_u used another formula for points of the
 rotor plane when other points were off it

---
 wiz/VortexCylinderSkewed.py | 39 +++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 6b3cd7b..d0bcf11 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -201,27 +201,24 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
         u_x   = -np.sin(vpsi)*u_psi
         u_y   =  np.cos(vpsi)*u_psi
     else:
-        if np.any(vz!=0):
-            # need to use general formula
-            u_x = np.zeros(vr.shape)
-            u_y = np.zeros(vr.shape)
-            e = np.array([np.sin(chi),0,np.cos(chi)])
-            for i,(r,psi,z) in enumerate(zip(vr,vpsi,vz)):
-                u_x[i],u_y[i],u_z[i]= vl_semiinf_u(r*np.cos(psi),r*np.sin(psi),z,e[0],e[1],e[2],Gamma_r,visc_model=0,t=0)
-            u_psi = - u_x*np.sin(vpsi) + u_y* np.cos(vpsi)
-        else:
-            # rotor plane analytical (see Yaw article)
-            u_psi = np.zeros(vr.shape)
-            coschi = 1 / np.sqrt(1 + m ** 2)
-            sinchi = m / np.sqrt(1 + m ** 2)
-            Iz = vr > (EPSILON_AXIS)
-            bnIz = np.logical_not(Iz)
-            u_z  [Iz] = np.multiply(Gamma_r/(4*np.pi*vr[Iz]), 1.0/(1-np.cos(vpsi[Iz])*sinchi)*sinchi*np.sin(vpsi[Iz]))
-            u_psi[Iz] = np.multiply(Gamma_r/(4*np.pi*vr[Iz]), 1.0/(1-np.cos(vpsi[Iz])*sinchi)*coschi)
-            u_z  [bnIz] =0
-            u_psi[bnIz] =0
-            u_x = -np.sin(vpsi)*u_psi
-            u_y =  np.cos(vpsi)*u_psi
+        # NOTE: the formula used for a point should not depend on the other points
+        Iz    = np.logical_and(vz==0, vr > EPSILON_AXIS)
+        u_x   = np.zeros(vr.shape)
+        u_y   = np.zeros(vr.shape)
+        u_psi = np.zeros(vr.shape)
+        # General formula
+        e = np.array([np.sin(chi),0*chi,np.cos(chi)])
+        for i in np.where(~Iz)[0]:
+            r,psi,z = vr[i],vpsi[i],vz[i]
+            u_x[i],u_y[i],u_z[i]= vl_semiinf_u(r*np.cos(psi),r*np.sin(psi),z,e[0],e[1],e[2],Gamma_r,visc_model=0,t=0)
+        u_psi[~Iz] = - u_x[~Iz]*np.sin(vpsi[~Iz]) + u_y[~Iz]* np.cos(vpsi[~Iz])
+        # Rotor plane analytical (see Yaw article)
+        coschi = 1 / np.sqrt(1 + m ** 2)
+        sinchi = m / np.sqrt(1 + m ** 2)
+        u_z  [Iz] = np.multiply(Gamma_r/(4*np.pi*vr[Iz]), 1.0/(1-np.cos(vpsi[Iz])*sinchi)*sinchi*np.sin(vpsi[Iz]))
+        u_psi[Iz] = np.multiply(Gamma_r/(4*np.pi*vr[Iz]), 1.0/(1-np.cos(vpsi[Iz])*sinchi)*coschi)
+        u_x  [Iz] = -np.sin(vpsi[Iz])*u_psi[Iz]
+        u_y  [Iz] =  np.cos(vpsi[Iz])*u_psi[Iz]
     # Reshaping to input shape
     u_z   =  u_z.reshape(shape_in) 
     if polar_out:
-- 
2.43.0


From ac203997c8134858dbdbca2400d92a778c9b5ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:36 +0000
Subject: [PATCH 21/22] fix: a failed set_yaw0_coord left the turbine half
 changed

---
 wiz/WindTurbine.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 5ac8512..3717584 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -90,21 +90,32 @@ class WindTurbine:
         self.Model=Model
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
-        self.e_shaft_g = np.array(e_shaft_yaw0).ravel().reshape(3,1)
-        self.e_shaft_g0= self.e_shaft_g
-        self.e_vert_g  = np.array(e_vert).ravel().reshape(3,1)
-        v_horz0 = self.e_shaft_g -np.dot(self.e_shaft_g.T,self.e_vert_g)
-        self.e_horz_g = v_horz0/np.linalg.norm(v_horz0)
-        self.e_FAST_z = self.e_vert_g
-        self.e_FAST_x = self.e_horz_g
-        self.e_FAST_y = np.cross(self.e_FAST_z.T,self.e_FAST_x.T).T
+        e_shaft_g0= np.array(e_shaft_yaw0).ravel().reshape(3,1)
+        e_vert_g  = np.array(e_vert).ravel().reshape(3,1)
+        v_horz0 = e_shaft_g0 -np.dot(e_shaft_g0.T,e_vert_g)
+        e_horz_g = v_horz0/np.linalg.norm(v_horz0)
+        e_FAST_y = np.cross(e_vert_g.T,e_horz_g.T).T
         # Transformation matrix from global to FAST coordinate system
-        self.T_F2g   = np.column_stack((self.e_FAST_x,self.e_FAST_y,self.e_FAST_z))
+        T_F2g    = np.column_stack((e_horz_g,e_FAST_y,e_vert_g))
         # Transformation matrix from cylinder coordinate system to wind turbine
         # TODO: handle tilt
-        e_c_x=np.cross(self.e_vert_g.T,self.e_shaft_g.T).T
-        self.T_c2wt = np.column_stack((e_c_x,self.e_vert_g,self.e_shaft_g))
-        self.update_yaw_pos(0)
+        e_c_x=np.cross(e_vert_g.T,e_shaft_g0.T).T
+        T_c2wt = np.column_stack((e_c_x,e_vert_g,e_shaft_g0))
+        T_wt2g = RotMat_AxisAngle(e_vert_g,0)
+        e_shaft_g = np.dot(T_wt2g, e_shaft_g0)
+        # Storing only when nothing can fail anymore, so that a failed update changes nothing
+        self.e_shaft_g0= e_shaft_g0
+        self.e_vert_g  = e_vert_g
+        self.e_horz_g  = e_horz_g
+        self.e_FAST_z = self.e_vert_g
+        self.e_FAST_x = self.e_horz_g
+        self.e_FAST_y = e_FAST_y
+        self.T_F2g   = T_F2g
+        self.T_c2wt  = T_c2wt
+        # Zero yaw
+        self.yaw_pos = 0
+        self.T_wt2g  = T_wt2g
+        self.e_shaft_g = e_shaft_g
 
     def update_yaw_pos(self,yaw):
         """ 
-- 
2.43.0


From 0fea611a2a5f3a57f4837e5ac7408cfea9e5582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:37 +0000
Subject: [PATCH 22/22] fix: turbine keeps numbers given as 0-d arrays (yaw,
 skew angle, radius, tip-speed ratio) by reference

---
 wiz/WindTurbine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 3717584..de2ee21 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -2,6 +2,7 @@
 from __future__ import division
 from __future__ import print_function
 # --- General
+import copy
 import unittest
 import numpy as np
 # --- Local
@@ -79,12 +80,12 @@ class WindTurbine:
         self.update_position(r_hub)
         self.update_wind(U0)
         self.name=name
-        self.R=R
+        self.R=copy.copy(R)
         self.r=None
         self.gamma_t=None
         self.gamma_t=None
         self.Gamma_r=None
-        self.Lambda=Lambda
+        self.Lambda=copy.copy(Lambda)
         self.Ground=Ground # Ground effect will be included in calculation of induced velocity
         self.chi=None
         self.Model=Model
@@ -124,7 +125,7 @@ class WindTurbine:
         T_wt2g       = RotMat_AxisAngle(self.e_vert_g,yaw)
         # Rotating the shaft vector so that its coordinate follow the new yaw position
         e_shaft_g    = np.dot(T_wt2g , self.e_shaft_g0)
-        self.yaw_pos = yaw
+        self.yaw_pos = np.positive(yaw)
         self.T_wt2g  = T_wt2g
         self.e_shaft_g=e_shaft_g
 
@@ -200,6 +201,7 @@ class WindTurbine:
         #print(misc)
         r =np.array(r)
         Ct=None if Ct is None else np.array(Ct)
+        Lambda=copy.copy(Lambda)
         # Storing only when nothing can fail anymore, so that a failed update changes nothing
         self.gamma_t=gamma_t
         self.gamma_l=gamma_l
@@ -274,7 +276,7 @@ class WindTurbine:
 
     @chi.setter
     def chi(self,chi):
-        self._chi=chi
+        self._chi=None if chi is None else np.positive(chi)
 
     def set_chi(self,chi):
         self.chi=chi
-- 
2.43.0

