From 79f61ac31bee04f8bc5ae17d272f4b966ef63eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 01/10] fix: re-sort projected radii when the origin changes

---
 clustertools/cluster/cluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index e08576f..4062868 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -376,6 +376,7 @@ class StarCluster(object):
         self.rorder = None
         self.rorder_origin = None
         self.rproorder = None
+        self.rproorder_origin = None
 
         # Additional variables for operation and function calls
         self.trelax = None
@@ -1509,8 +1510,9 @@ class StarCluster(object):
             self.rorder = np.argsort(self.r)
             self.rorder_origin=self.origin
 
-        if (self. rproorder is None or self.rorder_origin!=self.origin or len(self.rpro)!=len(self.rproorder)) and (projected or self.projected):
+        if (self. rproorder is None or self.rproorder_origin!=self.origin or len(self.rpro)!=len(self.rproorder)) and (projected or self.projected):
             self.rproorder = np.argsort(self.rpro)
+            self.rproorder_origin=self.origin
 
     def _analysis_check(self,sortstars=True,projected=False):
         if self.units!=self.analyze_units or self.analyze_units!=self.units:
-- 
2.43.0


From cd963273aa8ad276a7eec565e7661051ddc69bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 02/10] fix: unit factors missing from the velocity converters

---
 clustertools/util/units.py | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index b4a7d48..592fe1a 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -147,6 +147,8 @@ def _convert_velocity(x,units,cluster):
                 x*=cluster.vbar
                 if cluster.units=='kpcgyr':
                     x*=1.022712165045695
+                elif cluster.units=='WDunits':
+                    x/=(cluster._vo/conversion.velocity_in_kpcGyr(vo=cluster._vo,ro=cluster._ro))
             elif cluster.units=='galpy':
                 x*=cluster.vbar/cluster._vo
             elif cluster.units=='radec':
@@ -167,14 +169,24 @@ def _convert_velocity(x,units,cluster):
                 print('NO DIRECT CONVERSION AVAILABLE')
             elif cluster.units=='amuse':
                 x=x | u.kms
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr':
+                x*=1.022712165045695
+            elif cluster.units=='WDunits':
+                x/=(cluster._vo/conversion.velocity_in_kpcGyr(vo=cluster._vo,ro=cluster._ro))
 
         elif units=='kpckms' or units=='kpcgyr' or units=='WDunits':
             if units=='kpcgyr': 
                 x/=1.022712165045695
+            elif units=='WDunits':
+                x*=(cluster._vo/conversion.velocity_in_kpcGyr(vo=cluster._vo,ro=cluster._ro))
             if cluster.units=='nbody':
                 x/=cluster.vbar
             elif cluster.units=='amuse':
                 x= x | u.kms
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr':
+                x*=1.022712165045695
+            elif cluster.units=='WDunits':
+                x/=(cluster._vo/conversion.velocity_in_kpcGyr(vo=cluster._vo,ro=cluster._ro))
             elif cluster.units=='galpy':
                 x/=cluster._vo
             elif cluster.units=='radec':
@@ -189,6 +201,10 @@ def _convert_velocity(x,units,cluster):
                     x*=1.022712165045695
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=cluster._vo
+                if cluster.units=='kpcgyr':
+                    x*=1.022712165045695
+                elif cluster.units=='WDunits':
+                    x/=(cluster._vo/conversion.velocity_in_kpcGyr(vo=cluster._vo,ro=cluster._ro))
             elif cluster.units=='nbody':
                 x*=(cluster._vo/cluster.vbar)
             elif cluster.units=='radec':
@@ -236,6 +252,8 @@ def _convert_square_velocity(x,units,cluster):
                 x*=(cluster.vbar**2.)
                 if cluster.units=='kpcgyr':
                     x*=(1.022712165045695**2.0)
+                elif cluster.units=='WDunits':
+                    x/=(cluster._vo/conversion.velocity_in_kpcGyr(vo=cluster._vo,ro=cluster._ro))**2.0
             elif cluster.units=='galpy':
                 x*=((cluster.vbar/cluster._vo)**2.)
             elif cluster.units=='radec':
@@ -258,16 +276,26 @@ def _convert_square_velocity(x,units,cluster):
                 print('NO DIRECT CONVERSION AVAILABLE')
             elif cluster.units=='amuse':
                 x=x | (u.kms*u.kms)
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr':
+                x*=(1.022712165045695**2.0)
+            elif cluster.units=='WDunits':
+                x/=(cluster._vo/conversion.velocity_in_kpcGyr(vo=cluster._vo,ro=cluster._ro))**2.0
 
         elif units=='kpckms' or units=='kpcgyr' or units=='WDunits':
 
             if units=='kpcgyr':
                 x/=(1.022712165045695**2.0)
+            elif units=='WDunits':
+                x*=(cluster._vo/conversion.velocity_in_kpcGyr(vo=cluster._vo,ro=cluster._ro))**2.0
 
             if cluster.units=='nbody':
                 x/=(cluster.vbar**2.)
             elif cluster.units=='amuse':
                 x= x | (u.kms*u.kms)
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr':
+                x*=(1.022712165045695**2.0)
+            elif cluster.units=='WDunits':
+                x/=(cluster._vo/conversion.velocity_in_kpcGyr(vo=cluster._vo,ro=cluster._ro))**2.0
             elif cluster.units=='galpy':
                 x/=(cluster._vo**2.)
             elif cluster.units=='radec':
@@ -278,12 +306,14 @@ def _convert_square_velocity(x,units,cluster):
                 x*=(cluster._vo**2.)
                 if cluster.units=='amuse':
                     x= x | (u.kms*u.kms)
-                elif units=='pcmyr':
-                    x/=(1.022712165045695**2.0)
+                elif cluster.units=='pcmyr':
+                    x*=(1.022712165045695**2.0)
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=(cluster._vo**2.)
-                if units=='kpcgyr':
-                    x/=(1.022712165045695**2.0)
+                if cluster.units=='kpcgyr':
+                    x*=(1.022712165045695**2.0)
+                elif cluster.units=='WDunits':
+                    x/=(cluster._vo/conversion.velocity_in_kpcGyr(vo=cluster._vo,ro=cluster._ro))**2.0
             elif cluster.units=='nbody':
                 x*=((cluster._vo/cluster.vbar)**2.)
             elif cluster.units=='radec':
-- 
2.43.0


From fb066db306a7de14c928ab4cca88666cb6ebb4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 03/10] fix: mass converter looked up mass_in_msol in the wrong
 galpy module

---
 clustertools/util/units.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index 592fe1a..fcc5004 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -443,12 +443,12 @@ def _convert_mass(x,units,cluster):
             if cluster.units=='amuse':
                 x= x | u.MSun
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
             elif cluster.units=='WDunits':
                 x/=222288.4543021174
 
         elif units=='galpy':
-            x *= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+            x *= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
 
             if cluster.units=='amuse':
                 x= x | u.MSun
@@ -465,7 +465,7 @@ def _convert_mass(x,units,cluster):
             elif cluster.units=='amuse':
                 x= x | u.MSun
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
 
         else:
             if units=='amuse':
@@ -474,7 +474,7 @@ def _convert_mass(x,units,cluster):
             if cluster.units=='nbody':
                 x/=cluster.zmbar
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
             elif cluster.units=='WDunits':
                 x/=222288.4543021174
             elif cluster.units=='amuse':
-- 
2.43.0


From e37a5d61e3719ba19e6792e61e39fd2bf2519184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 04/10] fix: projected densities given in galpy units scale
 with the area, not the volume

---
 clustertools/util/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index fcc5004..577d530 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -561,7 +561,7 @@ def _convert_density(x,units,cluster,projected=False):
 
         elif units=='galpy':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-                x/=((1000.0*cluster._ro)**3.0)
+                x/=((1000.0*cluster._ro)**power)
                 if cluster.units=='amuse':
                     x/= 1 | (u.parsec*u.parsec*u.parsec)
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
@@ -569,7 +569,7 @@ def _convert_density(x,units,cluster,projected=False):
             elif cluster.units=='nbody':
                 x/=((cluster._ro*1000.0/cluster.rbar)**power)
             elif cluster.units=='radec':
-                x/=(cluster._ro**3.0)
+                x/=(cluster._ro**power)
                 kpc_deg=np.degrees(np.arctan2(1.0,cluster.zgc))
                 x/=(kpc_deg**power)
 
-- 
2.43.0


From bb01253a8d41474a1f482b72227519d1d57cc4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 05/10] fix: coordinate helpers passed keywords the origin
 operations do not accept

---
 clustertools/util/coordinates.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clustertools/util/coordinates.py b/clustertools/util/coordinates.py
index ea2d779..1b3a5a3 100644
--- a/clustertools/util/coordinates.py
+++ b/clustertools/util/coordinates.py
@@ -51,7 +51,7 @@ def sphere_coords(cluster):
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
     if origin0=='sky':
-        cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
+        cluster.to_galaxy()
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -166,7 +166,7 @@ def cyl_coords(cluster):
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
     if origin0=='sky':
-        cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
+        cluster.to_galaxy()
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -244,7 +244,7 @@ def sky_coords(cluster,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar
     cluster.save_cluster()
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
-    cluster.to_radec(ro=ro,vo=vo,solarmotion=solar_motion)
+    cluster.to_radec()
 
     ra,dec,d0,pmra,pmdec,vr0=cluster.x,cluster.y,cluster.z,cluster.vx,cluster.vy,cluster.vz
 
-- 
2.43.0


From 8a08ddc673f66a31180171346dfd9e8cbe63d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 06/10] fix: selecting a subset overwrote the caller's own
 selection mask

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 4062868..21496c3 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3934,7 +3934,7 @@ def _get_subset(
 
     try:
 
-        indx *= (
+        indx = indx * (
             (r >= rmin)
             * (r <= rmax)
             * (cluster.m >= mmin)
-- 
2.43.0


From 4e8e083ec4d155fd5438fff2ed9ffca54316ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 07/10] fix: data race between iterations of the parallel
 potential energy sum

---
 clustertools/analysis/functions.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index a40b6fd..1826950 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -840,15 +840,16 @@ def _potential_energy_parallel(cluster,softening=0.0):
        2019 - Written - Webb (UofT)
     """
     pot = [0.0] * len(cluster)
-    for i in numba.prange(len(cluster) - 1):
-        for j in range(i + 1, len(cluster)):
-            r = distance(cluster[i], cluster[j])
+    # each iteration only updates its own star, so that parallel iterations never write to the same element
+    for i in numba.prange(len(cluster)):
+        for j in range(len(cluster)):
+            if i != j:
+                r = distance(cluster[i], cluster[j])
 
-            if r==0: r=np.nan
+                if r==0: r=np.nan
 
-            m2 = cluster[i, 3] * cluster[j, 3]
-            pot[i] += -m2 / np.sqrt(r**2.+softening**2.)
-            pot[j] += -m2 / np.sqrt(r**2.+softening**2.)
+                m2 = cluster[i, 3] * cluster[j, 3]
+                pot[i] += -m2 / np.sqrt(r**2.+softening**2.)
 
     return pot
 
-- 
2.43.0


From 4f29748bb7679a5af5defcb6feffde378a584102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 08/10] fix: energies of chosen stars ignored the projected
 option

---
 clustertools/analysis/functions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 1826950..ed03999 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -723,11 +723,16 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
         # Get gravitational constant
         grav = _get_grav(cluster)
 
-        kin = 0.5 * cluster.m[ids] * cluster.v[ids]**2
+        kin = kin[ids]
 
-        cluster_full = np.array([cluster.x, cluster.y, cluster.z, cluster.m]).T
+        if projected:
+            z = np.zeros(len(cluster.x))
+        else:
+            z = cluster.z
+
+        cluster_full = np.array([cluster.x, cluster.y, z, cluster.m]).T
         cluster_sub  = np.array([cluster.x[ids], cluster.y[ids], 
-                                 cluster.z[ids], cluster.m[ids]]).T
+                                 z[ids], cluster.m[ids]]).T
 
         if parallel:
             pot = grav * np.array(_potential_energy_subset_parallel(cluster_sub, cluster_full,softening))
@@ -736,7 +741,6 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
 
         if specific:
             pot /= cluster.m[ids]
-            kin /= cluster.m[ids]
     
     elif full:
         if projected:
-- 
2.43.0


From 80e50b2de7560182fff140ad0c53d18e4bedadb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 09/10] fix: with softening a star contributed to its own
 potential energy when full=False

---
 clustertools/analysis/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index ed03999..48fd035 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -772,6 +772,7 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
                 dr = np.sqrt(dx ** 2.0 + dy ** 2.0 + dz ** 2.0 + softening**2.)
 
             indx = dr != 0.0
+            indx[i] = False
             gmr = -grav * m[indx] / dr[indx]
 
             pot.append(np.sum(gmr))
-- 
2.43.0


From 5ea4b8154631e7258090fd3ef63dfda876b7140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:16 +0000
Subject: [PATCH 10/10] fix: relaxation_time() raised UnboundLocalError when a
 radius was given

---
 clustertools/analysis/functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 48fd035..e971bf6 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -496,9 +496,14 @@ def relaxation_time(cluster, rad=None, coulomb=0.4, projected=False,method='spit
 
     if rad is None and projected:
         rad=cluster.rmpro
-        vel=cluster.vpro
     elif rad is None:
         rad=cluster.rm
+    else:
+        rad=_convert_length(rad,units0,cluster)
+
+    if projected:
+        vel=cluster.vpro
+    else:
         vel=cluster.v
 
     if projected:
-- 
2.43.0

