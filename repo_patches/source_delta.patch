From 4fe84e62f91a7344c63e5dc3148f8baca0c1e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 01/90] fix: count a negative patstart back from the last
 pattern in index_pats_distributed

---
 pyebsdindex/_ebsd_index_parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index c0d0c89..73b6164 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -275,7 +275,7 @@ def index_pats_distributed(
         )
 
     if patstart < 0:
-        patstart = npatsTotal - patstart
+        patstart = npatsTotal + patstart
     if npats <= 0:
         npats = npatsTotal - patstart
 
-- 
2.43.0


From 47b5cd074232c5c796b50791900f89788a4c10df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 02/90] fix: requeue a band detection job whose worker returned
 an error instead of dropping it

---
 pyebsdindex/_ebsd_index_parallel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 73b6164..be7ee87 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -529,6 +529,10 @@ def index_pats_distributed(
                 try:
                     message, (banddata, bandnorm, gjob) = ray.get(wrker)
 
+                    if message == 'Error':
+                        # handled below like a lost worker: the job goes back in the queue.
+                        raise Exception("Error in detecting bands")
+
                     if message == 'Done':
                         banddataout[gjob.pstart - patstart: gjob.pend - patstart, :] = banddata
                         bandnormsout[gjob.pstart - patstart: gjob.pend - patstart, :,:] = bandnorm
-- 
2.43.0


From 547a40454d1501edfd3a2988be19e24f57772482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 03/90] fix: do not leave a job in the queue when it is
 resubmitted to the worker replacing a hung one

---
 pyebsdindex/_ebsd_index_parallel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index be7ee87..aa2e733 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -621,6 +621,7 @@ def index_pats_distributed(
                             actorid=0, clparammodule=clparamfunction, gpu_id=gpu_id, cudavis=cudagpuvis
                         )
                     )
+                    gjob = gpujobs.pop(0)
                     if inputmode == "filemode":
                         gputask.append(
                             gpuworkers[0].findbands.remote(gjob,
-- 
2.43.0


From 777375c09e02dd56d5314144658a1e72fed5608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:21 +0000
Subject: [PATCH 04/90] fix: write the identity row, not rows 0-3, in qu2ro
 (memory corruption for an identity quaternion)

---
 pyebsdindex/rotlib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index e6dfd2c..e86db99 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -788,10 +788,10 @@ def qu2roL(quIn,p=P):
       for j in range(3):
         mag += qu[i,j + 1] ** 2
       if mag < eps:
-        ro[0] = 0.0
-        ro[1] = 0.0
-        ro[2] = -pf
-        ro[3] = 0.0
+        ro[i,0] = 0.0
+        ro[i,1] = 0.0
+        ro[i,2] = -pf
+        ro[i,3] = 0.0
       else:
         mag = 1.0 / np.sqrt(mag)
         q0 = qu[i,0]
-- 
2.43.0


From 59025a43c876836844b9b56a73a25d768682927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:04 +0000
Subject: [PATCH 05/90] fix: sign of phi1 in om2eu at Phi = 180 degrees

---
 pyebsdindex/rotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index e86db99..84e1289 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -221,7 +221,7 @@ def om2euL(om, p=P):
         eu[i,1] = 0.0
         eu[i,2] = 0.0
       else:
-        eu[i,0] = -np.arctan2(om[i,0,1],om[i,0,0])
+        eu[i,0] = np.arctan2(om[i,0,1],om[i,0,0])
         eu[i,1] = PI
         eu[i,2] = 0.0
     eu[i,0] += 100.0 * PI
-- 
2.43.0


From 9f830615ccb4570740da2c9d615e1c53f079fe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 06/90] fix: om2eu for matrices that are within rounding of Phi
 = 0 or 180 degrees

---
 pyebsdindex/rotlib.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index 84e1289..dad27c6 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -214,9 +214,12 @@ def om2euL(om, p=P):
       eu[i,1] = np.arccos(om[i,2,2])
       zeta = 1.0 / (np.sqrt(1.0 - om[i,2,2] * om[i,2,2]))
       eu[i,0] = np.arctan2(om[i,2,0] * zeta,-1.0 * om[i,2,1] * zeta)
-      eu[i,2] = np.arctan2(om[i,0,2] * zeta,om[i,1,2] * zeta)
+      # phi2 given phi1: well conditioned also when only rounding keeps Phi from 0 or PI
+      c1 = np.cos(eu[i,0])
+      s1 = np.sin(eu[i,0])
+      eu[i,2] = np.arctan2(-1.0 * (c1 * om[i,1,0] + s1 * om[i,1,1]), c1 * om[i,0,0] + s1 * om[i,0,1])
     else:
-      if ((np.abs(om[i,2,2] - 1.0)) < eps):
+      if om[i,2,2] > 0.0: # may exceed 1 by rounding
         eu[i,0] = np.arctan2(om[i,0,1],om[i,0,0])
         eu[i,1] = 0.0
         eu[i,2] = 0.0
-- 
2.43.0


From 5a694e71b2cb3c671183568f9b5cb503277b01f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 07/90] fix: zero threshold of the crystal matrices relative to
 their size, not absolute

---
 pyebsdindex/crystallometry.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/crystallometry.py b/pyebsdindex/crystallometry.py
index fd61d79..fd97a70 100644
--- a/pyebsdindex/crystallometry.py
+++ b/pyebsdindex/crystallometry.py
@@ -73,7 +73,7 @@ class Crystal:
         self.gamma = gamma
         self.elambda = 0.0
         self.spaceGroup = ''
-        smallThreshold = 1e-6
+        smallThreshold = 1e-12  # relative to the largest entry, so the unit of length does not matter
 
         ca = np.cos(alpha*np.pi/180)
         cb = np.cos( beta*np.pi/180)
@@ -99,7 +99,7 @@ class Crystal:
         self.mtDet = ((a*b*c)**2)*(1.0-ca**2 - cb**2 - cg**2 + 2.0*ca*cb*cg)
         self.volume = np.sqrt(self.mtDet)
         self.metricTensor = self.metricTensor.transpose()
-        self.metricTensor[np.abs(self.metricTensor) < smallThreshold] = 0
+        self.metricTensor[np.abs(self.metricTensor) < smallThreshold*np.abs(self.metricTensor).max()] = 0
         
         #Compute the reciprocal metric tensor
         self.reciprocalMetricTensor = np.zeros([3,3])
@@ -114,7 +114,7 @@ class Crystal:
         self.reciprocalMetricTensor[1,2] = self.reciprocalMetricTensor[2,1]
         self.reciprocalMetricTensor = self.reciprocalMetricTensor/self.mtDet
         self.reciprocalMetricTensor = self.reciprocalMetricTensor.transpose()
-        self.reciprocalMetricTensor[np.abs(self.reciprocalMetricTensor) < smallThreshold] = 0
+        self.reciprocalMetricTensor[np.abs(self.reciprocalMetricTensor) < smallThreshold*np.abs(self.reciprocalMetricTensor).max()] = 0
         
         #Compute direct stucture matrix
         self.directStructureMatrix = np.zeros([3,3])
@@ -128,7 +128,7 @@ class Crystal:
         self.directStructureMatrix[1,2] = 0.0
         self.directStructureMatrix[2,2] = self.volume/(a*b*sg)
         self.directStructureMatrix = self.directStructureMatrix.transpose()
-        self.directStructureMatrix[np.abs(self.directStructureMatrix) < smallThreshold] = 0
+        self.directStructureMatrix[np.abs(self.directStructureMatrix) < smallThreshold*np.abs(self.directStructureMatrix).max()] = 0
 
         # Compute inverse direct stucture matrix
         self.invDirectStructureMatrix = np.zeros([3, 3])
@@ -142,7 +142,7 @@ class Crystal:
         self.invDirectStructureMatrix[1, 2] = 0.0
         self.invDirectStructureMatrix[2, 2] = a*b*sg/(self.volume)
         self.invDirectStructureMatrix = self.invDirectStructureMatrix.transpose()
-        self.invDirectStructureMatrix[np.abs(self.invDirectStructureMatrix) < smallThreshold] = 0
+        self.invDirectStructureMatrix[np.abs(self.invDirectStructureMatrix) < smallThreshold*np.abs(self.invDirectStructureMatrix).max()] = 0
         
         #compute reciprocal structure matrix
         self.reciprocalStructureMatrix = np.zeros([3,3])
@@ -156,7 +156,7 @@ class Crystal:
         self.reciprocalStructureMatrix[1,2] = a*c*(cb*cg-ca)/(self.volume*sg)
         self.reciprocalStructureMatrix[2,2] = (a*b*sg)/self.volume
         self.reciprocalStructureMatrix = self.reciprocalStructureMatrix.transpose()
-        self.reciprocalStructureMatrix[np.abs(self.reciprocalStructureMatrix) < smallThreshold] = 0
+        self.reciprocalStructureMatrix[np.abs(self.reciprocalStructureMatrix) < smallThreshold*np.abs(self.reciprocalStructureMatrix).max()] = 0
 
         # Compute inverse reciprocal stucture matrix
         self.invReciprocalStructureMatrix = np.zeros([3, 3])
-- 
2.43.0


From 6f05d9c267e96333f5744026c559205a3cbfd160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 08/90] fix: np.Infinity was removed from numpy;
 generate_list_of_planes produced nothing

---
 pyebsdindex/crystallometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/crystallometry.py b/pyebsdindex/crystallometry.py
index fd97a70..c52255f 100644
--- a/pyebsdindex/crystallometry.py
+++ b/pyebsdindex/crystallometry.py
@@ -183,7 +183,7 @@ class Crystal:
             print('generating list')
             g = [0,0,0]
             g0 = CrystalPlane(g,'F')
-            g0.d = np.Infinity
+            g0.d = np.inf
             g0.g = 0.0
             # g0
             gVectorList.append(g0)
-- 
2.43.0


From b29d51495bf1a9cab204b01b83a208815825d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 09/90] fix: triplets with equal angle sums are not duplicates

---
 pyebsdindex/tripletvote.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index ddfbf78..6caf57f 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -723,14 +723,13 @@ class BandIndexer():
       libID[i,:] = temp2
 
     if findDups == True:
-      angID = np.sum(np.round(libANG*100), axis = 1).astype(np.longlong)
+      angID = np.round(libANG*100).astype(np.longlong)
       basis = np.longlong(libID.max() + 1)
       libID_ID = libID.dot(np.array([1,basis, basis**2]))
-      UID = np.ceil(np.log10(libID_ID.max()))
-      UID = np.where(UID > 2, UID, 2)
-      UID = (angID * 10**UID) + libID_ID
+      # all three angles have to agree (not only their sum) for a triplet to be a duplicate
+      UID = np.column_stack((angID, libID_ID))
 
-      stuff, unq = np.unique(UID, return_index=True)
+      stuff, unq = np.unique(UID, axis=0, return_index=True)
       libANG = libANG[unq, :]
       libID = libID[unq,:]
       libID_ID = libID_ID[unq]
-- 
2.43.0


From c8d75a7e6d88a987b21053672aecf246736e90d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:57 +0000
Subject: [PATCH 10/90] fix: build the triplet library of a phase with few band
 angles (one family, or one distinct angle)

---
 pyebsdindex/tripletvote.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 6caf57f..4cf87e4 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -29,7 +29,6 @@ from pathlib import PurePath, Path
 import platform
 #import tempfile
 from timeit import default_timer as timer
-import math
 
 import numpy as np
 import numba
@@ -397,7 +396,7 @@ class BandIndexer():
     nangs = angs.size
     familyID = np.array(familyID)
     polePairs = np.array(polePairs)
-    nFamilyID = np.bincount(np.squeeze(familyID[:,0]).astype(int), minlength=int(npoles))
+    nFamilyID = np.bincount(familyID[:,0].astype(int), minlength=int(npoles))
 
     #stuff, nFamilyID = np.unique(familyID[:,0], return_counts=True)
 
@@ -405,14 +404,8 @@ class BandIndexer():
     #print(familyID)
     #print(nFamilyID)
     #print(indx0FID)
-    #This completely over previsions the arrays, this is essentially 
-    #N Choose K with N = number of angles and K = 3
-    nlib = npoles*np.prod(np.arange(3, dtype=np.int64)+(nangs-2+1))//np.int64(math.factorial(3))
-    nlib = nlib.astype(int)
-
-    libANG = np.zeros((nlib, 3))
-    libID = np.zeros((nlib, 3), dtype=int)
-    counter = 0
+    libANG = []
+    libID = []
     # now actually catalog all the triplet angles.
     for i in range(npoles):
       if nFamilyID[i] <= 0:
@@ -429,12 +422,11 @@ class BandIndexer():
           whjk = np.nonzero( np.logical_and( familyID[:,0] == id1, familyID[:,1] == id2 ))[0]
           for q in range(whjk.size):
             ang2 = angs[whjk[q]]
-            libANG[counter, :] = np.array([ang0, ang1, ang2])
-            libID[counter, :] =  np.array([id0, id1, id2])
-            counter += 1
+            libANG.append([ang0, ang1, ang2])
+            libID.append([id0, id1, id2])
 
-    libANG = libANG[0:counter, :]
-    libID = libID[0:counter, :]
+    libANG = np.array(libANG, dtype=float).reshape(-1, 3)
+    libID = np.array(libID, dtype=int).reshape(-1, 3)
 
     libANG, libID = self._sortlib_id(libANG, libID, findDups = True) # sorts each row of the library to make sure
     # the triplets are in increasing order.
-- 
2.43.0


From 0456c7125b06c91e514b940715b1d8e720bf9dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:57 +0000
Subject: [PATCH 11/90] fix: band confidence of a one-family phase read outside
 the vote accumulator

---
 pyebsdindex/tripletvote.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 4cf87e4..e1ebc28 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -1141,7 +1141,8 @@ class BandIndexer():
           band_cm[p,q] = 0.0
         else:
           srt = np.argsort(accumulatorW[p,:,q])
-          band_cm[p,q] = (accumulatorW[p,srt[-1],q] - accumulatorW[p,srt[-2],q]) / (tvotes[p,q])
+          runnerup = accumulatorW[p,srt[-2],q] if nfam > 1 else np.float32(0.0)
+          band_cm[p,q] = (accumulatorW[p,srt[-1],q] - runnerup) / (tvotes[p,q])
       #for q in range(n_bands):
         bandFam[p,q] = np.argmax(accumulatorW[p,:,q])
       bandRank[p,:] = (n_bands - np.arange(n_bands)) / n_bands * band_cm[p,:] * mxvote[p,:]
-- 
2.43.0


From 3d144ff08873a1ceab4a9a6611ecebe03d46beb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:49 +0000
Subject: [PATCH 12/90] fix: patstart and npats select a window of an array
 too, as documented

---
 pyebsdindex/_ebsd_index_single.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 5cb8032..12c5f33 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -530,6 +530,13 @@ class EBSDIndexer:
             for the distributed indexing procedures.
         """
 
+        if patsin is not None and len(patsin.shape) == 3:
+            # the same window of the patterns as would be read from a file
+            npatsin = patsin.shape[0]
+            start = patstart if patstart >= 0 else npatsin + patstart
+            stop = npatsin if npats <= 0 else min(start + npats, npatsin)
+            if start > 0 or stop < npatsin:
+                patsin = patsin[start:stop]
         pats, xyloc = self._getpats(patsin=patsin, patstart=patstart, npats=npats, xyloc=xyloc)
         # just a check that the band_detect is ready for this size pattern.
         if self.bandDetectPlan.patDim is None:
-- 
2.43.0


From eb95bf5f620ec1799636be071786c83bcb339be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:49 +0000
Subject: [PATCH 13/90] fix: index_pats_distributed with an indexer holding a
 file, and with a count past the last pattern

---
 pyebsdindex/_ebsd_index_parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index aa2e733..72ff4be 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -245,7 +245,7 @@ def index_pats_distributed(
 
     if filename is not None:
         indexer.update_file(filename)
-    else:
+    elif pats is not None:
         indexer.update_file(patDim=pats.shape[-2:])
 
     # Differentiate between getting a file to index or an array.
@@ -276,7 +276,7 @@ def index_pats_distributed(
 
     if patstart < 0:
         patstart = npatsTotal + patstart
-    if npats <= 0:
+    if npats <= 0 or patstart + npats > npatsTotal:
         npats = npatsTotal - patstart
 
     # Now set up the cluster with the indexer
-- 
2.43.0


From a1773af28374ebaca4a32c3c483e8e8ca97cea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:52 +0000
Subject: [PATCH 14/90] fix: bands marked invalid were matched to poles and
 seeded solutions

---
 pyebsdindex/tripletvote.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index e1ebc28..1264649 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -545,7 +545,8 @@ class BandIndexer():
 
     # this will check the vote, and return the exact band matching to specific poles of the best fitting solution.
     fit, polematch, polevalid, nMatch, whGood, ij, R, fitb = \
-      self._assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam)
+      self._assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam,
+                            np.asarray(band_intensity) >= 1e-6)
 
     # check how often the indexed band matched the top voting band family.
     acc_correct =  np.sum(np.array((polevalid > 0) & #take valid poles
@@ -1214,7 +1215,7 @@ class BandIndexer():
 
   @staticmethod
   @numba.jit(nopython=True, cache=True, fastmath=True,parallel=False)
-  def _assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam ):
+  def _assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam, bandvalid ):
 
     eps = np.float32(1.0e-12)
     pflt = np.asarray(libPolesCart, dtype=np.float32)
@@ -1249,6 +1250,8 @@ class BandIndexer():
 
           bnd1 = bandRank_arg[p, -1 - ii]
           bnd2 = bandRank_arg[p, -1 - jj]
+          if not (bandvalid[p, bnd1] and bandvalid[p, bnd2]):
+            continue
 
           v1 = bandnorms[p, bnd1,:]
           f1 = bandFam[p, bnd1]
@@ -1325,6 +1328,9 @@ class BandIndexer():
             #angfitTry = np.clip(np.amax(test,axis=0),-1.0,1.0)
 
             angfitTry = np.arccos(angfitTry) * RADEG
+            for j in range(nBnds):
+              if not bandvalid[p, j]:
+                angfitTry[j] = np.float32(180.0)  # an invalid band matches nothing
             whMatch = np.nonzero(angfitTry < angTol)[0]
             nmatch = whMatch.size
             #scoreTry = np.float32(nmatch) * np.mean(np.abs(angTol - angfitTry[whMatch]))
-- 
2.43.0


From 47b7394e4fb58a0b1256f2e5fc99fef1110959c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:52 +0000
Subject: [PATCH 15/90] fix: QUEST refinement returned a wrong orientation for
 rotations by 180 degrees

---
 pyebsdindex/tripletvote.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 1264649..e378541 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -968,10 +968,22 @@ class BandIndexer():
       qn = np.float64(0.0)
       qn += gamma ** 2 + X[0] ** 2 + X[1] ** 2 + X[2] ** 2
       qn = np.sqrt(qn)
-      q[0] = gamma
-      q[1:4] = X[0:3]
-      q /= qn
-      if (np.sign(gamma) < 0):
+      if qn > 1.0e-4:
+        q[0] = gamma
+        q[1:4] = X[0:3]
+        q /= qn
+      else:
+        # the closed form is singular for rotations by 180 degrees, there take the eigenvector itself
+        K = np.zeros((4, 4), dtype=np.float64)
+        K[0, 0] = sig
+        for j in range(3):
+          K[0, j + 1] = z[j]
+          K[j + 1, 0] = z[j]
+          for i in range(3):
+            K[j + 1, i + 1] = S[j, i] - sig * I[j, i]
+        evals, evecs = np.linalg.eigh(K)
+        q[:] = evecs[:, 3]
+      if (np.sign(q[0]) < 0):
         q *= -1.0
 
       qout[p, :] = q
-- 
2.43.0


From 838eada32bc49f3f5a4dd74e6a330211b20927f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:41 +0000
Subject: [PATCH 16/90] fix: report bands out of tolerance of every pole as
 unmatched

---
 pyebsdindex/tripletvote.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index e378541..65e7a4f 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -600,6 +600,8 @@ class BandIndexer():
       avequat = rotlib.om2qu(R)
 
     cm2 = self._calc_cm(accumulator, polematch, polevalid, libFamID)
+    # the pole nearest to a band that is out of tolerance is not a match
+    polematch = np.where(polevalid > 0, polematch, -1)
 
     if verbose > 2:
       print('refinement: ', timer() - tic)
-- 
2.43.0


From 62bef01bfbaafe284d96e903df5e2191c74dc2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:44 +0000
Subject: [PATCH 17/90] fix: radon_fast failed for a single image with a
 background

---
 pyebsdindex/radon_fast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/radon_fast.py b/pyebsdindex/radon_fast.py
index 300d4fc..3bd35bf 100644
--- a/pyebsdindex/radon_fast.py
+++ b/pyebsdindex/radon_fast.py
@@ -204,9 +204,9 @@ class Radon:
       #image = image.reshape(-1)
     else:
       if str.upper(background_method) == 'DIVIDE':
-        image = imageIn / background
+        image = image / background
       else:
-        image = imageIn - background
+        image = image - background
       #image = image.reshape(-1)
 
     nPx = shapeIm[-1]*shapeIm[-2]
-- 
2.43.0


From 172d1b66d6f3c2d7edb48d2ff25bd2359b2e8423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:44 +0000
Subject: [PATCH 18/90] fix: radon_fast put -1 in empty cells whatever the
 missing value

---
 pyebsdindex/radon_fast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/radon_fast.py b/pyebsdindex/radon_fast.py
index 3bd35bf..bbf47c6 100644
--- a/pyebsdindex/radon_fast.py
+++ b/pyebsdindex/radon_fast.py
@@ -219,7 +219,7 @@ class Radon:
       im[:-2] = (image[i,:,:].flatten()).astype(np.float32)
       radon[i, padding[0]:shpRdn[1]-padding[0], padding[1]:shpRdn[2]-padding[1]] = (
           np.sum(im.take(self.indexPlan.astype(np.int64)), axis=2) / norm)
-      radon[i, padding[0]:shpRdn[1]-padding[0], padding[1]:shpRdn[2]-padding[1]] += -1.0*(norm < 1.0).astype(float)
+      radon[i, padding[0]:shpRdn[1]-padding[0], padding[1]:shpRdn[2]-padding[1]] += self.missingval*(norm < 1.0).astype(float)
 
     if (fixArtifacts == True):
       radon[:,:,0] = radon[:,:,1]
-- 
2.43.0


From 404bfd948a585363aa96038c94393036e4cd5960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:44 +0000
Subject: [PATCH 19/90] fix: radon_fast copied padding columns over padding
 columns to fix artefacts

---
 pyebsdindex/radon_fast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/radon_fast.py b/pyebsdindex/radon_fast.py
index bbf47c6..ae6c475 100644
--- a/pyebsdindex/radon_fast.py
+++ b/pyebsdindex/radon_fast.py
@@ -222,8 +222,8 @@ class Radon:
       radon[i, padding[0]:shpRdn[1]-padding[0], padding[1]:shpRdn[2]-padding[1]] += self.missingval*(norm < 1.0).astype(float)
 
     if (fixArtifacts == True):
-      radon[:,:,0] = radon[:,:,1]
-      radon[:,:,-1] = radon[:,:,-2]
+      radon[:,:,padding[1]] = radon[:,:,padding[1]+1]
+      radon[:,:,shpRdn[2]-1-padding[1]] = radon[:,:,shpRdn[2]-padding[1]-2]
 
     radon = np.transpose(radon, [1,2,0]).copy()
 
-- 
2.43.0


From e64c24a6c1326a2d706ba9fb0053e66ac09ef771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:46 +0000
Subject: [PATCH 20/90] fix: BandDetect(patternmask=...) raised a TypeError

---
 pyebsdindex/band_detect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 3795623..d98c720 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -118,11 +118,11 @@ class BandDetect():
         self.patDim = np.asarray(patDim)
       patternmask = None
       if 'patternmask' in kwargs :
-        self.patternmask = kwargs.get('patternmask')
+        self.patternmask = kwargs.pop('patternmask')
 
       patternmaskindex = None
       if 'patternmaskindex' in kwargs:
-        patternmaskindex = kwargs.get('patternmaskindex')
+        patternmaskindex = kwargs.pop('patternmaskindex')
       #print(patternmask)
       self.band_detect_setup(patterns, self.patDim,self.nTheta,self.nRho,\
                              self.tSigma, self.rSigma,self.rhoMaskFrac,self.nBands,
-- 
2.43.0


From c79c31348a4fbb0fadb4a26db9decfd792f05e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:46 +0000
Subject: [PATCH 21/90] fix: typo made evenly spaced background collection from
 a file fail

---
 pyebsdindex/band_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index d98c720..37cc8ec 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -316,7 +316,7 @@ class BandDetect():
         stride = np.sort(stride)
       elif method.upper() == 'EVENSTRIDE':
         step = int(npats / nsample) # not great, but maybe good enough.
-        stride = np.arange(0,npats, step, dypte = np.uint64)
+        stride = np.arange(0,npats, step, dtype = np.uint64)
       pat1 = fileobj.read_data(convertToFloat=True,patStartCount=[stride[0], 1],returnArrayOnly=True)[0]
       for i in stride[1:]:
         pat1 += fileobj.read_data(convertToFloat=True,patStartCount=[i, 1],returnArrayOnly=True)[0]
-- 
2.43.0


From ec1dc2b41dcae518329995b9df3f158a84865e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:46 +0000
Subject: [PATCH 22/90] fix: EBSDIndexer ignored patternmask when the pattern
 dimensions were not known yet

---
 pyebsdindex/_ebsd_index_single.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 12c5f33..954fea4 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -397,6 +397,9 @@ class EBSDIndexer:
                 patDim=patDim,
                 patternmask=patternmask, patternmaskindex=patternmaskindex
             )
+        elif patternmask is not None:
+            # used when the pattern dimensions become known
+            self.bandDetectPlan.patternmask = patternmask
 
         self.nband_earlyexit = nband_earlyexit
         self.dataTemplate = np.dtype(
-- 
2.43.0


From 238186a957f9705e9d366bcdf9dd457703b5389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:19 +0000
Subject: [PATCH 23/90] fix: update_file failed for an indexer that had no
 pattern dimensions yet

---
 pyebsdindex/_ebsd_index_single.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 954fea4..eb463aa 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -444,7 +444,8 @@ class EBSDIndexer:
                 self.fID.read_header()
             patDim[0:] = np.array([self.fID.patternH, self.fID.patternW])
 
-        if (patDim[0] != self.bandDetectPlan.patDim[0]) or \
+        if (self.bandDetectPlan.patDim is None) or \
+            (patDim[0] != self.bandDetectPlan.patDim[0]) or \
             (patDim[1] != self.bandDetectPlan.patDim[1]):
             # need to setup banddetect for new pattern dimensions.
             #print(patDim, self.bandDetectPlan.patDim)
-- 
2.43.0


From 78487702e2fd55a652e38f118e0dce5881dff676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 24/90] fix: sub-pixel band locations beyond the first or last
 Radon cell were clipped to it

---
 pyebsdindex/radon_fast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/radon_fast.py b/pyebsdindex/radon_fast.py
index ae6c475..6f52925 100644
--- a/pyebsdindex/radon_fast.py
+++ b/pyebsdindex/radon_fast.py
@@ -321,8 +321,10 @@ class Radon:
     #theta = np.pi - self.radonPlan.theta[np.array(bandData['aveloc'][:,:,1],dtype=np.int64)] / RADEG
     #rho = -1.0 * self.radonPlan.rho[np.array(bandData['aveloc'][:,:,0],dtype=np.int64)]
 
-    theta =  np.pi - np.interp(bandData['aveloc'][:,:,1], np.arange(self.nTheta), self.theta) / RADEG
-    rho = -1.0 * np.interp(bandData['aveloc'][:,:,0], np.arange(self.nRho), self.rho)
+    # both axes are evenly spaced; a sub-pixel location can lie outside of the first or last cell
+    theta =  np.pi - bandData['aveloc'][:,:,1].astype(np.float64) * np.pi / self.nTheta
+    deltaRho = 2.0 * float(self.rhoMax) / self.nRho
+    rho = -1.0 * (bandData['aveloc'][:,:,0].astype(np.float64) * deltaRho - (float(self.rhoMax) - deltaRho))
     bandData['theta'][:] = theta
     bandData['rho'][:] = rho
 
-- 
2.43.0


From d3bd85b88f318d7bf938459bc3fa64b8aed153e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:55 +0000
Subject: [PATCH 25/90] fix: band_detect_setup kept the old Radon mask when the
 mask settings changed

---
 pyebsdindex/band_detect.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 37cc8ec..a4460c5 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -167,7 +167,14 @@ class BandDetect():
 
     if patternmask is not None:
       self.patternmask = patternmask
+      recalc_radon = True
+
+    if (rhoMaskFrac is not None) and (rhoMaskFrac != self.rhoMaskFrac):
+      self.rhoMaskFrac = rhoMaskFrac
+      recalc_radon = True
 
+    if self.patDim is None: # nothing to plan before the pattern dimensions are known
+      recalc_radon = False
 
     #recalc_radon = True
     if recalc_radon == True:
-- 
2.43.0


From cbefcaf44197a39c11ad19b86e7d0276fd1a010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:55 +0000
Subject: [PATCH 26/90] fix: automatic tSigma and rSigma were not updated for
 new pattern or Radon dimensions

---
 pyebsdindex/band_detect.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index a4460c5..3aeeba2 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -85,6 +85,8 @@ class BandDetect():
     self.rdnNorm = None
     self.tSigma = tSigma
     self.rSigma = rSigma
+    self.tSigmaAuto = tSigma is None # follow the Radon cell size
+    self.rSigmaAuto = rSigma is None
     self.kernel = None
     self.peakPad = np.array([11, 11])
     self.padding = np.array([11, 11])
@@ -246,9 +248,11 @@ class BandDetect():
 
     if tSigma is not None:
       self.tSigma = tSigma
+      self.tSigmaAuto = False
       recalc_masks = True
     if rSigma is not None:
       self.rSigma = rSigma
+      self.rSigmaAuto = False
       recalc_masks = True
 
     if rhoMaskFrac is not None:
@@ -257,11 +261,11 @@ class BandDetect():
     if (self.rhoMaskFrac is not None):
       recalc_masks = True
 
-    if (self.tSigma is None) and (self.dTheta is not None):
+    if self.tSigmaAuto and (self.dTheta is not None):
       self.tSigma = 1.0/self.dTheta
       recalc_masks = True
 
-    if (self.rSigma is None) and (self.dRho is not None):
+    if self.rSigmaAuto and (self.dRho is not None):
       self.rSigma = 0.5/np.float32(self.dRho)
       recalc_masks = True
 
-- 
2.43.0


From d681fab7931194830db2331960506d5dbfc31b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:55 +0000
Subject: [PATCH 27/90] fix: the Radon padding of a reused band detector never
 shrank

---
 pyebsdindex/band_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 3aeeba2..e3116e3 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -281,7 +281,7 @@ class BandDetect():
       self.peakPad = np.array(np.around([2 * ksz[0], 2 * ksz[1]]), dtype=np.int64)
       self.peakPad += 1 - np.mod(self.peakPad, 2)  # make sure we have it as odd.
 
-    self.padding = np.array([np.max( [self.peakPad[0], self.padding[0]] ), np.max([self.peakPad[1], self.padding[1]])])
+    self.padding = np.array([np.max([self.peakPad[0], 11]), np.max([self.peakPad[1], 11])])
 
     if nBands is not None:
       self.nBands = nBands
-- 
2.43.0


From 9c30383cf094695a277fd296482d3c86ec351cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:39 +0000
Subject: [PATCH 28/90] fix: patterns of the held file were indexed with the
 dimensions of the last array

---
 pyebsdindex/_ebsd_index_single.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index eb463aa..751f43a 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -673,13 +673,13 @@ class EBSDIndexer:
                 pats = np.reshape(patsin, (1, pshape[0], pshape[1]))
             else:
                 pats = patsin  # [patStart:patEnd, :,:]
-            pshape = pats.shape
 
-            if self.bandDetectPlan.patDim is None:
+        pshape = pats.shape
+        if self.bandDetectPlan.patDim is None:
+            self.bandDetectPlan.band_detect_setup(patDim=pshape[1:3])
+        else:
+            if np.all((np.array(pshape[1:3]) == self.bandDetectPlan.patDim)) == False:
                 self.bandDetectPlan.band_detect_setup(patDim=pshape[1:3])
-            else:
-                if np.all((np.array(pshape[1:3]) == self.bandDetectPlan.patDim)) == False:
-                    self.bandDetectPlan.band_detect_setup(patDim=pshape[1:3])
         return pats, xyloc
 
     def _detectbands(self, pats, PC, xyloc=None, clparams=None, verbose=0, chunksize=528, gpu_id=None):
-- 
2.43.0


From 012d34e7fc5134788fae5b73ca4266c716fbf3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:39 +0000
Subject: [PATCH 29/90] fix: update_file overwrote its default argument and the
 caller's patDim array

---
 pyebsdindex/_ebsd_index_single.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 751f43a..36957cc 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -427,6 +427,7 @@ class EBSDIndexer:
             1D array with two values, the pattern height and width.
         """
 
+        patDim = np.array(patDim) # the default and the caller's array stay as they are
         if filename is None:
             self.filein = None
             #self.bandDetectPlan.band_detect_setup(patDim=patDim)
-- 
2.43.0


From 7ef050a37741af9bf0d04c90ea15b806c8ab28b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 30/90] fix: version 1 UP files counted the bytes before the
 first pattern as patterns

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c1a0891..5c33b79 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -465,7 +465,7 @@ class UPFile(EBSDPatternFile):
       self.patternW = dat[0]
       self.patternH = dat[1]
       self.filePos = dat[2]
-      self.nPatterns = np.int64((Path(self.filepath).expanduser().stat().st_size - 16) /
+      self.nPatterns = np.int64((Path(self.filepath).expanduser().stat().st_size - np.int64(self.filePos)) /
                               (self.patternW * self.patternH * (self.filedatatype(0).nbytes)))
       if self.xStep is None:
         self.xStep = 0.0
-- 
2.43.0


From 9ebd83de41b30dfeda2375af6d97eb5a286d6827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 31/90] fix: EBSP files could not be read, one-element arrays
 were used as integers

---
 pyebsdindex/ebsd_pattern.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 5c33b79..6bc1b6e 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -704,7 +704,7 @@ class EBSPFile(EBSDPatternFile):
       return -1
 
     f.seek(0)
-    version = np.fromfile(f, dtype=np.int64, count=1)
+    version = np.fromfile(f, dtype=np.int64, count=1)[0]
     version = np.int64(-1*version)
     if version <= 0:
       self.version = 0
@@ -734,7 +734,7 @@ class EBSPFile(EBSDPatternFile):
       loc0 = 0
       counter = 0
       while loc0 == 0: # check for non-stored points.
-        loc0 = np.int64(np.fromfile(f, dtype=np.uint64, count=1))
+        loc0 = np.int64(np.fromfile(f, dtype=np.uint64, count=1)[0])
         counter += 1
       f.seek(-8*counter, 1) # move back 8 bytes (or however far we needed to move into the file to find a legitamte offset.
 
@@ -849,11 +849,11 @@ class EBSPFile(EBSDPatternFile):
           if self.filePos[i] > 0:
             f.seek(np.int64(self.filePos[i] + 4*per_pat_header + nbytespat + footoffset))
 
-            x1 = np.fromfile(f, dtype=np.float64, count=1)
+            x1 = np.fromfile(f, dtype=np.float64, count=1)[0]
             #print(x1, i)
             xall[i] = x1
             f.seek(footoffset, 1)
-            yall[i] = np.fromfile(f, dtype=np.float64, count=1)
+            yall[i] = np.fromfile(f, dtype=np.float64, count=1)[0]
 
 
         self.xStep = xall[1] - xall[0]
@@ -920,9 +920,9 @@ class EBSPFile(EBSDPatternFile):
         readpats[ii, :] = np.fromfile(f, dtype=typeread, count=np.int64(nPerPat))
         if readxypos == True:
           f.seek(xyoffset, 1)
-          xyloc[ii, 0] = np.fromfile(f, dtype=np.float64, count=1)
+          xyloc[ii, 0] = np.fromfile(f, dtype=np.float64, count=1)[0]
           f.seek(xyoffset, 1)
-          xyloc[ii, 1] = np.fromfile(f, dtype=np.float64, count=1)
+          xyloc[ii, 1] = np.fromfile(f, dtype=np.float64, count=1)[0]
 
     readpats = readpats.reshape(nPatToRead, self.patternH, self.patternW)
     f.close()
-- 
2.43.0


From 01263084176a5bf3381ff22c9862852861364a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 32/90] fix: EBSP files of one row or one point, or without the
 first pattern, could not be opened

---
 pyebsdindex/ebsd_pattern.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 6bc1b6e..dc0eb9e 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -754,7 +754,7 @@ class EBSPFile(EBSDPatternFile):
 
         self.nPatterns = np.int64((counter))
       elif self.version == 5:
-        f.seek(loc02N[0], 0)
+        f.seek(loc0, 0) # the first stored pattern of the table
         patdata = np.fromfile(f, dtype=np.uint32, count=per_pat_header)
         if patdata[0] == 1:
           print("Sorry, compressed EBSP files are not supported")
@@ -779,7 +779,7 @@ class EBSPFile(EBSDPatternFile):
       self.filePos = np.fromfile(f, dtype=np.uint64, count=self.nPatterns)
 
       # going to assume that all patterns are the same as the first pattern the file.
-      f.seek(self.filePos[0])
+      f.seek(np.min(self.filePos[self.filePos > 0]))
       #patdata = np.fromfile(f, dtype=np.uint32, count=4)
       #patdata0 = np.fromfile(f, dtype=np.uint8, count=1)
 
@@ -856,7 +856,13 @@ class EBSPFile(EBSDPatternFile):
             yall[i] = np.fromfile(f, dtype=np.float64, count=1)[0]
 
 
-        self.xStep = xall[1] - xall[0]
+        # not every pattern has to be stored, and the scan can be one row, one column or one point
+        stored = np.nonzero(self.filePos > 0)[0]
+        xall = xall[stored]
+        yall = yall[stored]
+        dx = np.diff(xall)[np.diff(stored) == 1]
+        dx = dx[dx > 1e-6]
+        self.xStep = dx[0] if dx.size > 0 else 0.0
         if self.xStep > 1e-6:
           ncol = (xall.max() - xall.min()) / self.xStep
           ncol = np.round(ncol+1)
@@ -866,14 +872,9 @@ class EBSPFile(EBSDPatternFile):
         self.nCols = np.uint64(ncol)
 
 
-        self.yStep = yall[0] - yall[self.nCols]
-
-        if self.yStep > 1e-6:
-          nrow = (yall.max() - yall.min()) / self.yStep
-          nrow = np.round(nrow+1)
-          self.nRows = np.int64(nrow)
-        else:
-          self.nRows = np.int64(self.nPatterns/self.nCols+0.001)
+        rows = stored // np.int64(self.nCols)
+        self.yStep = (yall[0] - yall[-1]) / (rows[-1] - rows[0]) if rows[-1] > rows[0] else 0.0
+        self.nRows = np.int64(np.ceil(self.nPatterns/self.nCols - 0.001))
 
       if self.xStep is None:
         self.xStep = 1.0
-- 
2.43.0


From f952fe0c31ec24e59924051d4163530fc09414ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 33/90] fix: HDF5 pattern file objects could not be made
 without a path

---
 pyebsdindex/ebsd_pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index dc0eb9e..60d29cd 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -198,6 +198,7 @@ class EBSDPatterns():
 # Any EBSD file class should inheret this class.
 class EBSDPatternFile():
   def __init__(self,path, filetype=None):
+    self.filepath = None
     self.set_filepath(path)
     self.vendor = None
     self.version = None
-- 
2.43.0


From 402b12b66c1e56f6c094712ee60dce46a1de9568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 34/90] fix: hexagonal grids in EDAX and kikuchipy HDF5 files
 were reported as square

---
 pyebsdindex/ebsd_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 60d29cd..06171f0 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1602,7 +1602,7 @@ class EDAXOH5(HDF5PatFile):
       headerpath = (f[self.h5patdatpth].parent.parent)["Header"]
       self.nCols = np.uint32(headerpath['nColumns'][()][0])
       self.nRows = np.uint32(headerpath['nRows'][()][0])
-      self.hexflag = np.uint32(headerpath['Grid Type'][()][0] == 'HexGrid')
+      self.hexflag = np.uint32(headerpath['Grid Type'][()][0] in (b'HexGrid', 'HexGrid'))
 
       self.xStep = np.float32(headerpath['Step X'][()][0])
       self.yStep = np.float32(headerpath['Step Y'][()][0])
@@ -1657,7 +1657,7 @@ class KIKUCHIPYH5(HDF5PatFile):
       headerpath = (f[self.h5patdatpth].parent.parent)["Header"]
       self.nCols = np.uint32(headerpath['n_columns'][()][0])
       self.nRows = np.uint32(headerpath['n_rows'][()][0])
-      self.hexflag = np.uint32(headerpath['grid_type'][()][0] == 'hexagonal')
+      self.hexflag = np.uint32(headerpath['grid_type'][()][0] in (b'hexagonal', 'hexagonal'))
 
       self.xStep = np.float32(headerpath['step_x'][()][0])
       self.yStep = np.float32(headerpath['step_y'][()][0])
-- 
2.43.0


From fbc0d0a10fbe3f49b32fe096a8b9820b4c5d6505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 35/90] fix: files of kikuchipy 0.10 and later were taken for
 files older than 0.3

---
 pyebsdindex/ebsd_pattern.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 06171f0..578a33c 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1640,7 +1640,9 @@ class KIKUCHIPYH5(HDF5PatFile):
 
     self.version = str((f['version'][()][0]).decode('UTF-8'))
 
-    if self.version  >= '0.3.dev0':
+    # compare numbers: as text '0.10' comes before '0.3'
+    version = [int(v) for v in self.version.split('.')[0:2]]
+    if version >= [0, 3]:
       ngrp = self.get_data_paths()
       if ngrp <= 0:
         f.close()
-- 
2.43.0


From 9a4f7295046ca9149222197fec510d8060e9bf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 36/90] fix: h5oina files with raw patterns only could not be
 opened

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 578a33c..8bfb1c2 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1763,7 +1763,7 @@ class OXFORDOINA(HDF5PatFile):
     f.close()
 
     if (len(self.h5datagroups) < 1) and (getraw is False):
-      self.get_data_paths(self, verbose=False, getraw=True)
+      return self.get_data_paths(verbose=verbose, getraw=True)
 
     if len(self.h5datagroups) < 1:
       print("No viable EBSD patterns found:",str(Path(self.filepath)))
-- 
2.43.0


From d60407e5ac172e733ba021573bc89abeb0aea70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 37/90] fix: ThermoFisher files with selected points were read
 as if they were a scan

---
 pyebsdindex/ebsd_pattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 8bfb1c2..3ca76fc 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1120,7 +1120,8 @@ class TFPatFile(EBSDPatternFile):
         self.filePos = 25
 
 
-      if isscan < 0:
+      self.isscan = bool(isscan[0] < 0)
+      if self.isscan:
         self.nPatterns = np.int64((self.nCols)) * self.nRows
       else:
         f.seek(0,2) # go to EOF
@@ -1133,7 +1134,7 @@ class TFPatFile(EBSDPatternFile):
     if self.isscan == False:
       xypix = []
       f.seek(self.filePos)
-      stride = np.int64(self.patternW * self.patternH)
+      stride = np.int64(self.patternW) * np.int64(self.patternH) * self.filedatatype(0).nbytes
       for ii in range(np.int64(self.nPatterns)):
         loc = np.fromfile(f, dtype=np.uint32, count=2)
         xypix.append(loc)
-- 
2.43.0


From ba34f065ebc70b8e0e04b6148acde64ee96b03fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 38/90] fix: opening a h5 pattern file for reading opened it
 for writing

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 3ca76fc..b5b6608 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -79,7 +79,7 @@ def get_pattern_file_obj(path,file_type=str('')):
     ebsdfileobj = HDF5PatFile(path) # if the path variable is a list,
     # the second item is set to be the hdf5 path to the patterns.
     try:
-      f = h5py.File(Path(pathtemp[0]).expanduser(),'r+')
+      f = h5py.File(Path(pathtemp[0]).expanduser(),'r')
     except:
       print("File Not Found:",str(Path(pathtemp[0])))
       return -1
-- 
2.43.0


From a3454f266ba26ac09b775ac8011b6a17e1f8df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 39/90] fix: reading another file with the same object kept the
 scan dimensions of the first

---
 pyebsdindex/ebsd_pattern.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index b5b6608..61ea022 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -225,7 +225,11 @@ class EBSDPatternFile():
 
   def read_data(self,path=None,convertToFloat=False,patStartCount = [0,-1],returnArrayOnly=False):
     if path is not None:
+      oldpath = self.filepath
       self.set_filepath(path)
+      if self.filepath != oldpath: # the scan dimensions are those of the other file
+        self.nCols = None
+        self.nRows = None
       self.read_header()
     if self.version is None:
       self.read_header()
-- 
2.43.0


From 7d5ca249fea0f8260bcb9a64fe36ebe60be97d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 40/90] fix: a write clipped at the end of the scan could be
 dropped silently

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 61ea022..9c26e6a 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -369,7 +369,7 @@ class EBSDPatternFile():
       if nPatToWrite == 0:
         nPatToWrite = 1
       if (patStart + nPatToWrite) > self.nPatterns:
-        nPatToWrite = self.nPatterns - patStart
+        nPatToWrite = np.int64(self.nPatterns) - patStart
 
       typewrite = self.filedatatype
       pat2write = pat_flt2int(pats,typeout=typewrite,method=flt2int,scalevalue=scalevalue,maxScale=None)
-- 
2.43.0


From 6e4926a0b5bad7f029ad0840a945f68364eb401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 41/90] fix: patterns read as a slab could not be written

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 9c26e6a..ff73189 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -343,7 +343,7 @@ class EBSDPatternFile():
 
     if isinstance(newpatterns,EBSDPatterns):
       pats = newpatterns.patterns
-      npats = newpatterns.nPatterns
+      npats = pats.shape[0]
     elif isinstance(newpatterns, np.ndarray):
       shp = newpatterns.shape
       ndim = newpatterns.ndim
-- 
2.43.0


From bd68b8df058d9b47094b02dd1e97350636738906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 42/90] fix: write_data ignored maxScale, and scaled the rows
 of a slab differently

---
 pyebsdindex/ebsd_pattern.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index ff73189..9b4f9ec 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -352,10 +352,6 @@ class EBSDPatternFile():
       elif ndim == 3:
         pats = newpatterns
       npats = pats.shape[0]
-    max = pats.max()
-
-    if maxScale is not None:
-      max = maxScale
 
     pStartEnd = np.asarray(patStartCount)
     # npats == number of patterns in the newpatterns
@@ -372,7 +368,7 @@ class EBSDPatternFile():
         nPatToWrite = np.int64(self.nPatterns) - patStart
 
       typewrite = self.filedatatype
-      pat2write = pat_flt2int(pats,typeout=typewrite,method=flt2int,scalevalue=scalevalue,maxScale=None)
+      pat2write = pat_flt2int(pats,typeout=typewrite,method=flt2int,scalevalue=scalevalue,maxScale=maxScale)
       self.pat_writer(pat2write,patStart,nPatToWrite, typewrite)
 
     elif pStartEnd.ndim == 2: # write a slab of patterns.
@@ -394,10 +390,11 @@ class EBSDPatternFile():
           nrowwrite = np.int64(self.nRows - rowstart)
 
 
+        # convert all the patterns of the slab together, otherwise each row has its own scale
+        pat2write = pat_flt2int(pats, typeout=self.filedatatype, method=flt2int, scalevalue=scalevalue, maxScale=maxScale)
         for i in range(nrowwrite):
           pstart = np.int64(np.int64(np.int64(rowstart+i)*self.nCols)+colstart)
-          self.write_data(newpatterns = pats[np.int64(i*ncolwrite):np.int64((i+1)*ncolwrite), :, :], patStartCount=[pstart,ncolwrite],writeHead=False,
-                          flt2int=flt2int,scalevalue=0.98, maxScale = max)
+          self.pat_writer(pat2write[np.int64(i*ncolwrite):np.int64((i+1)*ncolwrite), :, :], pstart, ncolwrite, self.filedatatype)
   def pat_writer(self, pat2write, patStart, nPatToWrite, typewrite):
     pass
 
-- 
2.43.0


From 7b93e2fce420a003eacb65e4f40aa3e4fec440f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 43/90] fix: write_data with writeHead raised for HDF5 files

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 9b4f9ec..be931e4 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -327,7 +327,7 @@ class EBSDPatternFile():
     in the scan.'''
     pass
 
-  def write_header(self):
+  def write_header(self, writeBlank=False, bitdepth=None):
     pass
 
   def write_data(self, newpatterns=None, patStartCount = [0,-1], writeHead=False,
-- 
2.43.0


From c75a6b813825e3c08d7353299fe4d7bad0a448c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 44/90] fix: new UP files were too short when the patterns do
 not follow the header directly

---
 pyebsdindex/ebsd_pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index be931e4..c64c9f6 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -591,6 +591,7 @@ class UPFile(EBSDPatternFile):
       # if self.bitdepth == 16:
       #   type = np.uint16
 
+      f.write(bytes(np.int64(self.filePos) - f.tell())) # the patterns do not need to follow the header directly
       blank = np.zeros((self.patternH, self.patternW), dtype=typewrite)
       for j in range(self.nRows):
         for i in range(self.nCols):
-- 
2.43.0


From 974421efeabe8ef95b22bd196fea1a85a6a9e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 45/90] fix: UPFile.file_from_pattern_obj ignored its filepath
 and bitdepth

---
 pyebsdindex/ebsd_pattern.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c64c9f6..d66f7d4 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -631,9 +631,11 @@ class UPFile(EBSDPatternFile):
     self.filePos = 42  # file location in bytes where pattern data starts
     self.extraPatterns = 0
     self.hexflag = 0
+    if filepath is not None:
+      self.set_filepath(filepath)
 
     if isinstance(patternobj, EBSDPatterns):
-      shp = (patternobj.nPatterns.prod(),patternobj.patternH,patternobj.patternW)
+      shp = (patternobj.patterns.shape[0],patternobj.patternH,patternobj.patternW)
       mx = patternobj.patterns.max()
     elif isinstance(patternobj, np.ndarray):
       shp = patternobj.shape
@@ -651,9 +653,11 @@ class UPFile(EBSDPatternFile):
     self.nPatterns = np.uint64(shp[0])
 
     if bitdepth is None: #make a guess
-      self.bitdepth = 16
-      if mx <= 256:
-        self.bitdepth = 8
+      bitdepth = 16
+      if mx <= 255:
+        bitdepth = 8
+    self.bitdepth = bitdepth
+    self.filedatatype = np.uint8 if bitdepth == 8 else np.uint16
   def copy_file(self, newpath, **kwargs):
     src = Path(self.filepath).expanduser().resolve()
     if newpath is not None:
-- 
2.43.0


From f017b4d58f991dc8eb02e26d1a425df68a0a9fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 46/90] fix: EBSP headers could not be written, and set the
 pattern type to 8 bit

---
 pyebsdindex/ebsd_pattern.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index d66f7d4..daa0fc9 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -945,7 +945,7 @@ class EBSPFile(EBSDPatternFile):
     # xyloc[:,1] *= self.yStep
     return readpats, xyloc
 
-  def write_header(self, writeBlank=False, bitdepth=8):
+  def write_header(self, writeBlank=False, bitdepth=None):
 
     filepath = self.filepath
     extension = str.lower(Path(filepath).suffix)
@@ -975,11 +975,13 @@ class EBSPFile(EBSDPatternFile):
       self.version = 2
 
     if self.version > 0:
-      version = np.uint64(-self.version)
-      np.asarray(version, dtype=np.uint64).tofile(f)
+      np.asarray(-np.int64(self.version), dtype=np.int64).tofile(f)
 
     if self.version >= 0:
-      if self.filePos is None:
+      per_pat_head = 16
+      if self.version >= 5:
+        per_pat_head = 24
+      if (self.filePos is None) or (writeBlank == True): # a new file has its own layout
         file_head_length = 0
         pat_footer_length = 0
         if self.version >= 1:
@@ -993,15 +995,19 @@ class EBSPFile(EBSDPatternFile):
 
         if self.version >= 4:
           file_head_length = 9
+        if self.version >= 5:
+          file_head_length += 8
 
-        self.filePos = np.arange(
-          self.nPatterns, dtype=np.uint64)*(16+pat_footer_length+self.patternH*self.patternW*self.filedatatype(0).nbytes)\
-                       +file_head_length+8*self.nPatterns
+        patbytes = per_pat_head + pat_footer_length + np.int64(self.patternH)*np.int64(self.patternW)*self.filedatatype(0).nbytes
+        self.filePos = (np.arange(np.int64(self.nPatterns))*patbytes
+                        + file_head_length + 8*np.int64(self.nPatterns)).astype(np.uint64)
 
       if self.version >= 4:
         np.uint8(0).tofile(f)
 
       np.asarray(self.filePos, dtype=np.uint64).tofile(f)
+      if self.version >= 5:
+        np.array([self.patternH, self.patternW], dtype=np.uint32).tofile(f)
 
     if writeBlank == True:
       typewrite = self.filedatatype
@@ -1013,6 +1019,8 @@ class EBSPFile(EBSDPatternFile):
       blank = np.zeros((self.patternH, self.patternW), dtype=typewrite)
       pathead = np.array([0, self.patternH, self.patternW,
                           self.patternH * self.patternW * self.filedatatype(0).nbytes], dtype=np.uint32)
+      if self.version >= 5:
+        pathead = np.concatenate((np.zeros(2, dtype=np.uint32), pathead))
 
       for j in range(self.nRows):
         for i in range(self.nCols):
@@ -1024,7 +1032,7 @@ class EBSPFile(EBSDPatternFile):
             np.float64(i * self.xStep - 0.5*(self.nCols*self.xStep)).tofile(f)
             if self.version >= 2:
               np.uint8(1).tofile(f)
-            np.float64(j * self.yStep - 0.5*(self.nRows*self.yStep)).tofile(f)
+            np.float64(0.5*(self.nRows*self.yStep) - j * self.yStep).tofile(f) # y falls from row to row
           else: # no xy_pos info
             if self.version >= 2:
               np.uint8(0).tofile(f)
-- 
2.43.0


From 8a77e191b697cad0397911e9b635aabe9468526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 47/90] fix: writing an EBSP pattern replaced its stored
 position, and corrupted version 5 files

---
 pyebsdindex/ebsd_pattern.py | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index daa0fc9..008e67b 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1046,31 +1046,16 @@ class EBSPFile(EBSDPatternFile):
       print("File Not Found:", str(Path(self.filepath)))
       return -1
 
-    nPerPat = self.patternW * self.patternH
-    nPerPatByte = nPerPat * typewrite(0).nbytes
-    pathead = np.array([0, np.int64(self.patternH), np.int64(self.patternW),
-                        np.int64(self.patternH * self.patternW * self.filedatatype(0).nbytes)], dtype=np.uint32)
-
-    write_xypos = self.hasxypos
+    per_pat_head = 16
+    if self.version >= 5:
+      per_pat_head = 24
 
     for i in range(np.int64(patStart), np.int64(patStart + nPatToWrite)):
       if np.int64(self.filePos[i]) > 0:
-        f.seek(np.int64(self.filePos[i]), 0)
+        # only the pattern: the stored header and position of the pattern stay as they are
+        f.seek(np.int64(self.filePos[i]) + per_pat_head, 0)
         ii = np.int64(i - patStart)
-        pathead.tofile(f)
         pat2write[ii, :, :].tofile(f)
-        if write_xypos:
-          if self.version >= 2:
-            np.uint8(1).tofile(f)
-          yx = np.array(np.unravel_index(i, (self.nRows, self.nCols))).astype(np.float64)
-          yx[1] -= float(self.nCols * 0.5)
-          yx[1] *= self.xStep
-          yx[0] -= float(self.nRows * 0.5)
-          yx[0] *= self.yStep
-          np.float64(yx[1]).tofile(f)
-          if self.version >= 2:
-            np.uint8(1).tofile(f)
-          np.float64(yx[0]).tofile(f)
     f.close()
 
 class TFPatFile(EBSDPatternFile):
-- 
2.43.0


From 3086e640045cb29cd92f8e882dd5ff6ee44d8021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 48/90] fix: rewriting the header of a ThermoFisher file erased
 the background pattern

---
 pyebsdindex/ebsd_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 008e67b..14a3233 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1258,13 +1258,13 @@ class TFPatFile(EBSDPatternFile):
       else: # there should be a background to write.
         np.asarray(-1, dtype=np.int16).tofile(f)
         background = np.zeros((self.patternH, self.patternW), dtype=np.uint16)
-        if self.background != np.ndarray:
+        if not isinstance(self.background, np.ndarray):
           pass
         else:
           if self.background.size != np.int64(self.patternH * self.patternW):
             pass
           else:
-            background = self.background.astype(self.filedatatype)
+            background = self.background.astype(np.uint16)
         background.tofile(f)
 
 
-- 
2.43.0


From 9c1adc1e072756cf6478aad6aa5d499e4488af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 49/90] fix: new ThermoFisher files were too short by the
 length of the header, and had no positions

---
 pyebsdindex/ebsd_pattern.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 14a3233..ae206b3 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1272,8 +1272,15 @@ class TFPatFile(EBSDPatternFile):
       typewrite = self.filedatatype
       dtyperead = np.dtype([('loc', np.uint32, (2)), ('pat', np.uint16, (self.patternH, self.patternW))])
 
-      f.seek(np.uint64(self.nPatterns * dtyperead.itemsize -1))
-      np.asarray(0, dtype=np.uint8).tofile(f)
+      if self.filePos is None:
+        self.filePos = f.tell()
+      blank = np.zeros(np.int64(self.nPatterns), dtype=dtyperead)
+      if self.isscan == False:
+        blank['loc'] = self.xypx
+      else:
+        yx = np.unravel_index(np.arange(np.int64(self.nPatterns)), (np.int64(self.nRows), np.int64(self.nCols)))
+        blank['loc'] = np.array([yx[1], yx[0]]).T
+      blank.tofile(f)
 
 
     f.close()
-- 
2.43.0


From b49eb086bc9c815888789dd7f66a1564ffc154e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 50/90] fix: writing patterns of a ThermoFisher file with
 selected points replaced their positions

---
 pyebsdindex/ebsd_pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index ae206b3..bf437ea 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1306,6 +1306,8 @@ class TFPatFile(EBSDPatternFile):
 
     loc[:,0] = loc[:,0] % self.nCols
     loc[:,1] = loc[:,1] // self.nCols
+    if self.isscan == False: # selected points have their own pixel positions
+      loc = self.xypx[patStart:patEnd, :].astype(np.uint32)
 
     f.seek(np.uint64(self.filePos + patStart*nPerPatByte))
     for i in range(nPatToWrite):
-- 
2.43.0


From 2a107f985602d584f2fcf4946cf14ad5bc616c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 51/90] fix: TFPatFile.copy_file copied nothing

---
 pyebsdindex/ebsd_pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index bf437ea..8160872 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1351,6 +1351,8 @@ class TFPatFile(EBSDPatternFile):
     else:
       dst = Path(str(src.expanduser().resolve())+'.copy')
     try:
+      if not kwargs.get('empty_data', False):
+        shutil.copyfile(src, dst)
       if 'empty_data' in kwargs:
         if kwargs['empty_data'] == True:
           with open(src, 'rb') as srcf:
-- 
2.43.0


From 50ba48d59c8a3ef71eab7f5cd9af6a27099e2af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 52/90] fix: copying a dataset within a HDF5 file needed an
 explicit name

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 8160872..c5882ea 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1494,7 +1494,7 @@ class HDF5PatFile(EBSDPatternFile):
 
     if samefile: # the source and new path are the same.  Thus make a copy of the dataset within the file
       fsrc = h5py.File(src, 'r+')
-      if newh5path == '': # need to make a unique name for the copy path.
+      if (newh5path == '') or (newh5path == hdf5path): # need to make a unique name for the copy path.
         for ii in range(1000):
           if hdf5path+'_'+str(ii) not in fsrc:
             newh5path = hdf5path+'_'+str(ii)
-- 
2.43.0


From 1b2a28ca93e8f22a00d74534aae2fccbb58c58dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 53/90] fix: pat_flt2int with method scale wrapped values
 beyond maxScale around

---
 pyebsdindex/ebsd_pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c5882ea..237e0fe 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -168,6 +168,7 @@ def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=Non
     if maxScale is None:
       maxScale = temp.max()
     temp *= scalevalue * maxval / maxScale
+    temp = temp.clip(0, maxval)
     temp = np.around(temp)
     patsout[:,:,:] = temp.astype(typeout)
   return patsout # note, this function uses multiple returns.
-- 
2.43.0


From a471836fab2cdb68e53353108638c4a020885557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 54/90] fix: 32-bit patterns were converted with the range of
 8-bit patterns

---
 pyebsdindex/ebsd_pattern.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 237e0fe..9ec64f6 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -145,6 +145,12 @@ def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=Non
     typeout = np.uint16
     minval = 0
     maxval = 65535
+  typecalc = np.float32
+  if (isinstance(typeout(0), np.uint32)):
+    typeout = np.uint32
+    maxval = 4294967295
+    typecalc = np.float64 # single precision can not hold these values
+    pats = pats.astype(typecalc)
 
 
   patsout = np.zeros(shp, dtype=typeout)
@@ -154,7 +160,7 @@ def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=Non
       maxval = min(maxScale, maxval)
     patsout[:,:,:] = pats.clip(minval, maxval).astype(dtype=typeout)
   elif method=='fullscale':
-    temp = pats.astype(np.float32) - minp
+    temp = pats.astype(typecalc) - minp
     if maxScale is None:
       maxScale = temp.max()
     temp *= scalevalue * maxval / maxScale
@@ -162,7 +168,7 @@ def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=Non
     temp = np.around(temp)
     patsout[:,:,:] = temp.astype(typeout)
   elif method=='scale': # here we assume that the min if not < 0 should not be scaled.
-    temp = pats.astype(np.float32)
+    temp = pats.astype(typecalc)
     if minp < minval:
       temp += minval  - minp 
     if maxScale is None:
-- 
2.43.0


From 457e4cead60f5d6a6a1791f6d3e22cbf2218c407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 55/90] fix: rounding of a constant double precision pattern
 was scaled up to the full range

---
 pyebsdindex/ebsd_pattern.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 9ec64f6..a062fc0 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -160,7 +160,8 @@ def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=Non
       maxval = min(maxScale, maxval)
     patsout[:,:,:] = pats.clip(minval, maxval).astype(dtype=typeout)
   elif method=='fullscale':
-    temp = pats.astype(typecalc) - minp
+    temp = pats.astype(typecalc)
+    temp -= temp.min()
     if maxScale is None:
       maxScale = temp.max()
     temp *= scalevalue * maxval / maxScale
@@ -169,6 +170,7 @@ def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=Non
     patsout[:,:,:] = temp.astype(typeout)
   elif method=='scale': # here we assume that the min if not < 0 should not be scaled.
     temp = pats.astype(typecalc)
+    minp = temp.min()
     if minp < minval:
       temp += minval  - minp 
     if maxScale is None:
-- 
2.43.0


From bb1d2917b1ac60ae6cee20d896217ca59f8c85d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 56/90] fix: NLPAR read outside of the data for small scans and
 small chunks

---
 pyebsdindex/nlpar_cpu.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 1bff137..727965f 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -412,8 +412,9 @@ class NLPAR:
       rowstartread = np.int64(max(0, j-sr))
       rowend = min(j + chunksize+sr,nrows)
 
-      if (rowend - rowstartread) < (2*sr+1):
-        rowstartread = np.int64(max(0, rowend - (2*sr+1)))
+      if (rowend - rowstartread) < (2*sr+1): # at the edges of the scan the window is moved inside
+        rowend = min(max(rowend, 2*sr+1), nrows)
+        rowstartread = np.int64(max(0, min(rowstartread, rowend - (2*sr+1))))
       rowcountread = np.int64(rowend-rowstartread)
       data, xyloc = patternfile.read_data(patStartCount = [[0,rowstartread], [ncols,rowcountread]],
                                         convertToFloat=True,returnArrayOnly=True)
@@ -687,10 +688,15 @@ class NLPAR:
     for i in numba.prange(ncols):
       winstart_x = max((i - sr),0) - max((i + sr - (ncols - 1)),0)
       winend_x = min((i + sr),(ncols - 1)) + max((sr - i),0) + 1
+      winstart_x = max(winstart_x, 0)
+      winend_x = min(winend_x, ncols)
       pairdict = numba.typed.Dict.empty(key_type=numba.core.types.uint64,value_type=numba.core.types.float32)
       for j in range(nrows):
         winstart_y = max((j - sr),0) - max((j + sr - (nrows - 1)),0)
         winend_y = min((j + sr),(nrows - 1)) + max((sr - j),0) + 1
+        # the scan can be smaller than the window
+        winstart_y = max(winstart_y, 0)
+        winend_y = min(winend_y, nrows)
 
         weights = np.zeros(winsz,dtype=np.float32)
         pindx = np.zeros(winsz,dtype=np.uint64)
@@ -734,14 +740,14 @@ class NLPAR:
         #print('________________')
         # end of window scanning
         sum = np.float32(0.0)
-        for i_nn in range(winsz):
+        for i_nn in range(counter):
 
           weights[i_nn] = np.maximum(weights[i_nn]-dthresh, numba.float32(0.0))
           weights[i_nn] = np.exp(-1.0 * weights[i_nn] * lam2)
           weights[i_nn] += diff_step[i_nn]
           sum += weights[i_nn]
 
-        for i_nn in range(winsz):
+        for i_nn in range(counter):
           indx_nn = pindx[i_nn]
           weights[i_nn] /= sum
           #print(weights[i_nn], ' \n')
-- 
2.43.0


From bbbf335632317cba683aba2531607b1a229261fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 57/90] fix: NLPAR with reset_sigma, or with one sigma for the
 whole scan, raised

---
 pyebsdindex/nlpar_cpu.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 727965f..b7905b8 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -370,15 +370,15 @@ class NLPAR:
 
     indices = np.asarray( (self.mask.flatten().nonzero())[0], np.uint64)
     calcsigma = False
+    if reset_sigma:
+      self.sigma = None
+
     if self.sigma is None:
       calcsigma = True
       self.sigma = np.zeros((nrows, ncols), dtype=np.float32)+1e24
 
-    if reset_sigma:
-      self.sigma = None
-
-    if (np.asarray(self.sigma).size == 1) and (self.sigma is not None):
-      tmp = np.asarray(self.sigma)[0]
+    if (np.asarray(self.sigma).size == 1) and (self.sigma is not None) and not calcsigma:
+      tmp = np.asarray(self.sigma).flat[0]
       self.sigma =  np.zeros((nrows, ncols), dtype=np.float32)+tmp
       calcsigma = False
 
-- 
2.43.0


From 55f1a0a67c3980f8c20ad298d85dafee49699610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 58/90] fix: NLPAR used the noise map of a scan with the same
 number of rows or columns

---
 pyebsdindex/nlpar_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index b7905b8..7b2f061 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -383,7 +383,7 @@ class NLPAR:
       calcsigma = False
 
     shpsigma = np.asarray(self.sigma).shape
-    if (shpsigma[0] != nrows) and (shpsigma[1] != ncols):
+    if (shpsigma[0] != nrows) or (shpsigma[1] != ncols):
       self.sigma = np.zeros((nrows,ncols),dtype=np.float32) + 1e24
       calcsigma = True
 
-- 
2.43.0


From ba0129f14eec6c5094bb9ce37c83b16c324b3e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 59/90] fix: the NLPAR diff_offset grew from row to row, shared
 between threads

---
 pyebsdindex/nlpar_cpu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 7b2f061..7e53134 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -678,7 +678,6 @@ class NLPAR:
     shpdata = data.shape
     shpind = indices.shape
     winsz = np.int32((2*sr+1)**2)
-    diff_step =  np.zeros((winsz), dtype=np.float32)
 
     mxval = np.max(data)
     if saturation_protect == False:
@@ -699,6 +698,7 @@ class NLPAR:
         winend_y = min(winend_y, nrows)
 
         weights = np.zeros(winsz,dtype=np.float32)
+        diff_step =  np.zeros((winsz), dtype=np.float32)
         pindx = np.zeros(winsz,dtype=np.uint64)
 
         indx_0 = i + ncols * j
@@ -712,7 +712,7 @@ class NLPAR:
 
             if indx_nn == indx_0:
               weights[counter] = np.float32(-1.0e6)
-              diff_step[counter] +=  diff_offset
+              diff_step[counter] =  diff_offset
             else:
               diff_step[counter] =  0.0
               pairid = getpairid(indx_0, indx_nn)
-- 
2.43.0


From 518617f2fc995a3be322f08fd3ef0fd7c15e5550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 60/90] fix: NLPAR weights at the edges of the row chunks used
 an incomplete noise estimate

---
 pyebsdindex/nlpar_cpu.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 7e53134..6643380 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -409,12 +409,16 @@ class NLPAR:
       if verbose >= 2:
         print("begin row: ", j, "/", nrows, sep='', end='\r')
 
-      rowstartread = np.int64(max(0, j-sr))
-      rowend = min(j + chunksize+sr,nrows)
-
-      if (rowend - rowstartread) < (2*sr+1): # at the edges of the scan the window is moved inside
-        rowend = min(max(rowend, 2*sr+1), nrows)
-        rowstartread = np.int64(max(0, min(rowstartread, rowend - (2*sr+1))))
+      # the noise of the outermost row needs its neighbors too
+      ov = 1 if calcsigma is True else 0
+      rowstartread = np.int64(max(0, j-sr-ov))
+      rowend = min(j + chunksize+sr+ov,nrows)
+
+      # at the edges of the scan the window is moved inside
+      if j < sr:
+        rowend = min(max(rowend, 2*sr+1+ov), nrows)
+      if (j + chunksize + sr) > nrows:
+        rowstartread = np.int64(max(0, min(rowstartread, nrows - (2*sr+1+ov))))
       rowcountread = np.int64(rowend-rowstartread)
       data, xyloc = patternfile.read_data(patStartCount = [[0,rowstartread], [ncols,rowcountread]],
                                         convertToFloat=True,returnArrayOnly=True)
@@ -433,6 +437,7 @@ class NLPAR:
         del tmp
         tmp = (sigma[rowstartread:rowend,:] < sigchunk).choose(sigchunk,sigma[rowstartread:rowend,:])
         sigma[rowstartread:rowend,:] = tmp
+        sigchunk = tmp
       else:
         sigchunk = sigma[rowstartread:rowend,:]
 
-- 
2.43.0


From ed4a32e44a6b83ab4a03734ed64144d1a58ae966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 61/90] fix: calcsigma added the noise of the last rows up
 twice

---
 pyebsdindex/nlpar_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 6643380..9db3108 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -524,7 +524,7 @@ class NLPAR:
 
       sigchunk, temp = self.sigma_numba(data,nn, rowcountread,ncols,rowstartcount,colstartcount,indices,saturation_protect)
 
-      sigma[j:j+rowstartcount[1],:] += \
+      sigma[j:j+rowstartcount[1],:] = \
         sigchunk[rowstartcount[0]:rowstartcount[0]+rowstartcount[1],:]
 
     return sigma
-- 
2.43.0


From 61dae5278d7faf3412323ca92c90b2ce3c8dd474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 62/90] fix: NLPAR darkened patterns by one level, averages
 were cut off instead of rounded

---
 pyebsdindex/ebsd_pattern.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index a062fc0..e5ac6bb 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -158,7 +158,10 @@ def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=Non
   if method=='clip':
     if maxScale is not None:
       maxval = min(maxScale, maxval)
-    patsout[:,:,:] = pats.clip(minval, maxval).astype(dtype=typeout)
+    temp = pats.clip(minval, maxval)
+    if np.issubdtype(temp.dtype, np.floating):
+      temp = np.around(temp) # 99.99999 is 100
+    patsout[:,:,:] = temp.astype(dtype=typeout)
   elif method=='fullscale':
     temp = pats.astype(typecalc)
     temp -= temp.min()
-- 
2.43.0


From b460452af7a09ee6816e7fe9f6e904c517f77e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 63/90] fix: NLPAR.calcsigma started reading at row -1

---
 pyebsdindex/nlpar_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 9db3108..6e54472 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -491,7 +491,7 @@ class NLPAR:
     chunksize = np.int64(chunksize)
 
 
-    nn = np.uint64(nn)
+    nn = np.int64(nn)
 
     if (automask is True) and (self.mask is None):
       self.mask = (self.automask(pheight,pwidth))
-- 
2.43.0


From b3bbb6d1877982938f75a0a6da58e29976dd12cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 64/90] fix: NLPAR used the scan shape and the noise of the
 previous file

---
 pyebsdindex/nlpar_cpu.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 6e54472..ff20bc4 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -69,6 +69,7 @@ class NLPAR:
 
 
   def setfile(self,filepath=None):
+    oldfile = (self.filepath, self.hdfdatapath)
     self.filepath = None
     self.hdfdatapath = None
     pathtemp = np.atleast_1d(filepath)
@@ -79,6 +80,12 @@ class NLPAR:
     if fpath is not None:
       self.filepath = Path(fpath)
       self.hdfdatapath = hdf5path
+    if (oldfile[0] is not None) and (oldfile != (self.filepath, self.hdfdatapath)):
+      # the scan shape and the noise map are those of the other file
+      self.nrows = None
+      self.ncols = None
+      if np.asarray(self.sigma).size > 1:
+        self.sigma = None
 
   def setoutfile(self, patternfile, filepath=None):
     """Set the output file.
-- 
2.43.0


From fee24b47a34189fc6a5fcc779c42fce54faf0c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 65/90] fix: NLPAR kept the mask of earlier patterns and
 settings

---
 pyebsdindex/nlpar_cpu.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index ff20bc4..48cfa53 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -243,12 +243,8 @@ class NLPAR:
 
     nn = np.uint64(nn)
 
-    if (automask is True) and (self.mask is None):
-      self.mask = (self.automask(pheight,pwidth))
-    if self.mask is None:
-      self.mask = np.ones((pheight,pwidth),dtype=np.uint8)
+    self._setmask(automask, pheight, pwidth)
 
-    self.mask = (self.mask).astype(np.uint8)
     indices = np.asarray((self.mask.flatten().nonzero())[0],np.uint64)
 
     sigma = np.zeros((nrows,ncols),dtype=np.float32)+1e24
@@ -370,10 +366,7 @@ class NLPAR:
 
 
 
-    if (automask is True) and (self.mask is None):
-      self.mask = (self.automask(pheight,pwidth))
-    if self.mask is None:
-      self.mask = np.ones((pheight,pwidth), dtype=np.uint8)
+    self._setmask(automask, pheight, pwidth)
 
     indices = np.asarray( (self.mask.flatten().nonzero())[0], np.uint64)
     calcsigma = False
@@ -500,10 +493,7 @@ class NLPAR:
 
     nn = np.int64(nn)
 
-    if (automask is True) and (self.mask is None):
-      self.mask = (self.automask(pheight,pwidth))
-    if self.mask is None:
-      self.mask = np.ones((pheight,pwidth), dtype=np.uint8)
+    self._setmask(automask, pheight, pwidth)
 
     indices = np.asarray( (self.mask.flatten().nonzero())[0], np.uint64)
 
@@ -600,6 +590,17 @@ class NLPAR:
     data -= backfit
     return data
 
+  _ownmask = None # the mask when it was not set by the user
+
+  def _setmask(self, automask, h, w):
+    # A mask set by the user stays.  A mask made here is only for the pattern size and settings of this run.
+    if (self.mask is None) or (self.mask is self._ownmask):
+      if automask is True:
+        self._ownmask = self.automask(h, w)
+      else:
+        self._ownmask = np.ones((h, w), dtype=np.uint8)
+      self.mask = self._ownmask
+
   @staticmethod
   def automask( h,w ):
     r = (min(h,w)*0.98*0.5)
-- 
2.43.0


From 6b8e59c93cc4564f386a4733170482db82f8417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 66/90] fix: PC optimisation in the EMSOFT convention changed
 the indexer and scaled the PC wrongly

---
 pyebsdindex/pcopt.py | 128 ++++++++++++++++---------------------------
 1 file changed, 48 insertions(+), 80 deletions(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 05cb5f0..00ec341 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -37,17 +37,43 @@ __all__ = [
 RADEG = 180.0 / np.pi
 
 
+def _patdimnorm(patDim):
+    # what the EDAX PC coordinates are fractions of
+    return np.array([patDim[1], patDim[0], np.min(patDim[0:2])], dtype=np.float64)
+
+
+def _emsoft2edax(PC, patDim):
+    """(x, y, z) in the EDAX convention of an EMSOFT (x, y, L, pixel size)."""
+    PC = np.array(PC, dtype=np.float64)
+    px = np.array([0.5 * patDim[1] - PC[0], 0.5 * patDim[0] + PC[1], PC[2] / PC[3]])
+    return px / _patdimnorm(patDim)
+
+
+def _edax2emsoft(PC, delta, patDim):
+    """EMSOFT (x, y, L, pixel size ``delta``) of one or more EDAX (x, y, z)."""
+    PC = np.array(PC, dtype=np.float64)
+    out = np.zeros(PC.shape[:-1] + (4,))
+    out[..., 0:3] = PC * _patdimnorm(patDim)
+    out[..., 0] = 0.5 * patDim[1] - out[..., 0]
+    out[..., 1] -= 0.5 * patDim[0]
+    out[..., 2] *= delta
+    out[..., 3] = delta
+    return out
+
+
 #def _optfunction(PC_i, indexer, banddat):
-def _optfunction(PC_i, indexer=None, banddat=None):
+def _optfunction(PC_i, indexer=None, banddat=None, vendor=None):
     tic = timer()
     PC = np.atleast_2d(PC_i)
     result = np.zeros(PC.shape[0])
+    if vendor is None:
+        vendor = indexer.vendor
     # this loop is here because pyswarms expects a vectorized function
     #print(PC.shape)
     for q in range(PC.shape[0]):
 
         bandnorm = indexer.bandDetectPlan.radonPlan.radon2pole(
-            banddat, PC=PC[q,:], vendor=indexer.vendor
+            banddat, PC=PC[q,:], vendor=vendor
         )
         #print(timer() - tic)
         npoints = banddat.shape[0]
@@ -122,26 +148,19 @@ def optimize(pats, indexer, PC0=None, batch=False):
     if PC0 is None:
         PC0 = indexer.PC
     emsoftflag = False
-    if indexer.vendor == "EMSOFT":  # Convert to EDAX for optimization
+    vendor = indexer.vendor
+    if vendor == "EMSOFT":  # Convert to EDAX for optimization
         emsoftflag = True
-        indexer.vendor = "EDAX"
-        patDim = np.array(indexer.bandDetectPlan.patDim)
-        delta = indexer.PC
-        PCtemp = PC0[0:3]
-        patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
-        PCtemp[0] *= -1.0
-        PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
-        PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
-        #PCtemp /= indexer.bandDetectPlan.patDim[1]
-        PCtemp /= patdimnorm
-        PCtemp[2] /= delta[3]
-        PC0 = PCtemp
+        vendor = "EDAX"
+        patDim = indexer.bandDetectPlan.patDim
+        delta = PC0[3]
+        PC0 = _emsoft2edax(PC0, patDim)
 
     if not batch:
         PCopt = opt.minimize(
             _optfunction,
             PC0,
-            args=(indexer, banddat),
+            args=(indexer, banddat, vendor),
             method="Nelder-Mead",
             options={"fatol": 0.00001}
         )
@@ -152,38 +171,13 @@ def optimize(pats, indexer, PC0=None, batch=False):
             PCopt = opt.minimize(
                 _optfunction,
                 PC0,
-                args=(indexer, banddat[i, :].reshape(1, nbands)),
+                args=(indexer, banddat[i, :].reshape(1, nbands), vendor),
                 method="Nelder-Mead"
             )
             PCoutRet[i, :] = PCopt['x']
 
-    if emsoftflag:  # Return original state for indexer
-        indexer.vendor = "EMSOFT"
-        indexer.PC = delta
-        patDim = np.array(indexer.bandDetectPlan.patDim)
-        patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
-        if PCoutRet.ndim == 2:
-            newout = np.zeros((npoints, 4))
-            PCoutRet[:, 0] -= 0.5
-            #PCoutRet[:, :3] *= indexer.bandDetectPlan.patDim[1]
-            PCoutRet[:, :3] *= np.atleast_2d(patdimnorm)
-            PCoutRet[:, 0] *= -1.0
-            PCoutRet[:, 1] -= 0.5 * patDim[0]
-            PCoutRet[:, 2] *= delta[3]
-            newout[:, :3] = PCoutRet
-            newout[:, 3] = delta[3]
-            PCoutRet = newout
-        else:
-            newout = np.zeros(4)
-            PCoutRet[0] -= 0.5
-            PCoutRet[:3] *= patdimnorm
-            #PCoutRet[:3] *= indexer.bandDetectPlan.patDim[1]
-            PCoutRet[1] -= 0.5 * patDim[0]
-            PCoutRet[0] *= -1.0
-            PCoutRet[2] *= delta[3]
-            newout[:3] = PCoutRet
-            newout[3] = delta[3]
-            PCoutRet = newout
+    if emsoftflag:
+        PCoutRet = _edax2emsoft(PCoutRet, delta, patDim)
 
     return PCoutRet
 
@@ -266,18 +260,13 @@ def optimize_pso(
         PC0 = np.asarray(PC0)
 
     emsoftflag = False
-    if indexer.vendor == "EMSOFT":  # Convert to EDAX for optimization
+    vendor = indexer.vendor
+    if vendor == "EMSOFT":  # Convert to EDAX for optimization
         emsoftflag = True
-        indexer.vendor = "EDAX"
-        delta = indexer.PC
-        PCtemp = PC0[0:3]
-        PCtemp[0] *= -1.0
-        PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
-        PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
-        PCtemp /= indexer.bandDetectPlan.patDim[1]
-        PCtemp[2] /= delta[3]
-        PC0 = np.array(PCtemp)
-
+        vendor = "EDAX"
+        patDim = indexer.bandDetectPlan.patDim
+        delta = PC0[3]
+        PC0 = _emsoft2edax(PC0, patDim)
 
 
     # optimizer = pso.single.GlobalBestPSO(
@@ -295,7 +284,7 @@ def optimize_pso(
         # cost, PCoutRet = optimizer.optimize(
         #     _optfunction, niter, indexer=indexer, banddat=banddat
         # )
-        cost, PCoutRet = optimizer.optimize(_optfunction, indexer=indexer, banddat=banddat,
+        cost, PCoutRet = optimizer.optimize(_optfunction, indexer=indexer, banddat=banddat, vendor=vendor,
                                             start=PC0, bounds=(PC0 - np.array(search_limit), PC0 + np.array(search_limit)),
                                             niter=niter, verbose=verbose)
         #weightedPC = np.mean(optimizer.pbest_loc, axis = 0)
@@ -314,7 +303,7 @@ def optimize_pso(
 
 
             cost, newPC = optimizer.optimize(_optfunction, indexer=indexer,
-                                    banddat=banddat[i, :].reshape(1, nbands),
+                                    banddat=banddat[i, :].reshape(1, nbands), vendor=vendor,
                start=PC0, bounds=(PC0 - np.array(search_limit), PC0 + np.array(search_limit)),
                niter=niter, verbose=0)
 
@@ -331,29 +320,8 @@ def optimize_pso(
         if verbose >= 1:
             print('', end='\n')
 
-    if emsoftflag:  # Return original state for indexer
-        indexer.vendor = "EMSOFT"
-        indexer.PC = delta
-        if PCoutRet.ndim == 2:
-            newout = np.zeros((npoints, 4))
-            PCoutRet[:, 0] -= 0.5
-            PCoutRet[:, :3] *= indexer.bandDetectPlan.patDim[1]
-            PCoutRet[:, 1] -= 0.5 * indexer.bandDetectPlan.patDim[0]
-            PCoutRet[:, 0] *= -1.0
-            PCoutRet[:, 2] *= delta[3]
-            newout[:, :3] = PCoutRet
-            newout[:, 3] = delta[3]
-            PCoutRet = newout
-        else:
-            newout = np.zeros(4)
-            PCoutRet[0] -= 0.5
-            PCoutRet[:3] *= indexer.bandDetectPlan.patDim[1]
-            PCoutRet[1] -= 0.5 * indexer.bandDetectPlan.patDim[0]
-            PCoutRet[0] *= -1.0
-            PCoutRet[2] *= delta[3]
-            newout[:3] = PCoutRet
-            newout[3] = delta[3]
-            PCoutRet = newout
+    if emsoftflag:
+        PCoutRet = _edax2emsoft(PCoutRet, delta, patDim)
     if return_cost is False:
         return PCoutRet
     else:
-- 
2.43.0


From 96ca3036058c56ef75c62fd39802ef30072645b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 67/90] fix: PC optimisation of a batch did not use the
 documented tolerance

---
 pyebsdindex/pcopt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 00ec341..3bdb6a2 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -172,7 +172,8 @@ def optimize(pats, indexer, PC0=None, batch=False):
                 _optfunction,
                 PC0,
                 args=(indexer, banddat[i, :].reshape(1, nbands), vendor),
-                method="Nelder-Mead"
+                method="Nelder-Mead",
+                options={"fatol": 0.00001}
             )
             PCoutRet[i, :] = PCopt['x']
 
-- 
2.43.0


From 9034d37100107dbd72caf6dd48e8df8e542ab7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 68/90] fix: particle swarm with one iteration divided by zero

---
 pyebsdindex/pcopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 3bdb6a2..22b0d83 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -500,7 +500,7 @@ class PSOOpt():
         # Function that selects and implements evolution of hyperparameters.
         if str.lower(self.hyperparammethod) == 'auto':
 
-            N = float(self.niter)-1
+            N = max(float(self.niter)-1, 1.0)
             self.c1i = (self.c1 - self.c1 / 7) * (N-iter)/N + self.c1 / 7.0
             #self.c2i = (self.c1 - self.c1 / 7) * (iter) / N + self.c1 / 7.0
             self.c2i = (self.c2 - self.c2 / 7) * (iter) / N + self.c2 / 7.0
-- 
2.43.0


From 25c4023abba4e8f7a7fbb113e7506368e27336b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 69/90] fix: a scan of one point could not be exported

---
 pyebsdindex/ebsdfile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index aba7f9f..ea5bb1c 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -76,7 +76,7 @@ def writeang(filename, indexer, data,
       phaseIDadd = 0
     else:
       phaseIDadd = 1
-    eulers = rotlib.qu2eu(data[-1]['quat'])
+    eulers = np.atleast_2d(rotlib.qu2eu(data[-1]['quat']))
     for i in range(data.shape[-1]):
       line = '  '
       line += '   '.join('{:.5f}'.format(x) for x in eulers[i,:])
@@ -237,10 +237,10 @@ def writeoh5(filename, indexer, data,
       # Write data
       npoints = data[-1].shape[-1]
 
-      eulers = rotlib.qu2eu(data[-1]['quat'])
-      phi1 = np.squeeze(eulers[:,0]).astype(np.float32)
-      phi = np.squeeze(eulers[:, 1]).astype(np.float32)
-      phi2 = np.squeeze(eulers[:, 2]).astype(np.float32)
+      eulers = np.atleast_2d(rotlib.qu2eu(data[-1]['quat']))
+      phi1 = eulers[:, 0].astype(np.float32)
+      phi = eulers[:, 1].astype(np.float32)
+      phi2 = eulers[:, 2].astype(np.float32)
 
       f.create_dataset(datasetname + '/EBSD/Data/Phi1',
                        data=phi1)
-- 
2.43.0


From 39f405f5129b39646ff9cc8f81874a59bcf161fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 70/90] fix: writeoh5 could not work out the number of rows

---
 pyebsdindex/ebsdfile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index ea5bb1c..6982983 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -221,9 +221,9 @@ def writeoh5(filename, indexer, data,
             if indexer.fID.nCols is not None:
               ncols = indexer.fID.nCols
               nrows = indexer.fID.nRows
-        else:
-          if nrows is None:
-            nrows = np.ceil(data.shape[-1] / ncols)
+      else:
+        if nrows is None:
+          nrows = np.ceil(data.shape[-1] / ncols)
 
       ncols = np.atleast_1d(np.array([np.int32(ncols)]).squeeze())
       nrows = np.atleast_1d(np.array([np.int32(nrows)]).squeeze())
-- 
2.43.0


From d78d00bfac999dd2394fbfdba5d9132e928ed4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 71/90] fix: writeoh5 did not mark unindexed points and changed
 the result in memory

---
 pyebsdindex/ebsdfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index 6982983..917c389 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -259,8 +259,8 @@ def writeoh5(filename, indexer, data,
 
 
       phaseid = data[-1]['phase']+ phaseIDadd
-      ci = data[-1]['cm']
-      wh = np.nonzero(phaseid < 0)[0]
+      ci = data[-1]['cm'].copy()
+      wh = np.nonzero(data[-1]['phase'] < 0)[0]
       if wh.shape[-1] > 0:
         ci[wh] = -1.0
       phaseid = (phaseid).clip(0)
-- 
2.43.0


From 698205b39d61df27e8289d65e9e0f478413e61ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 72/90] fix: writeoh5 wrote positions of points that are not in
 the result

---
 pyebsdindex/ebsdfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index 917c389..8e202b4 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -272,8 +272,8 @@ def writeoh5(filename, indexer, data,
       f.create_dataset(datasetname + '/EBSD/Data/CI',
                        data=(ci).astype(np.float32))
 
-      x = (np.arange(ncols[0] * nrows[0], dtype=int) % ncols[0]).astype(np.float32) * xstep[0]
-      y = (np.arange(ncols[0] * nrows[0], dtype=int) // ncols[0]).astype(np.float32) * ystep[0]
+      x = (np.arange(npoints, dtype=int) % ncols[0]).astype(np.float32) * xstep[0]
+      y = (np.arange(npoints, dtype=int) // ncols[0]).astype(np.float32) * ystep[0]
 
       f.create_dataset(datasetname + '/EBSD/Data/X Position', data=x)
       f.create_dataset(datasetname + '/EBSD/Data/Y Position', data=y)
-- 
2.43.0


From f06c9efcfb543377159c79afc1b4aeab45069f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 73/90] fix: orientation colours of a single point raised an
 error

---
 pyebsdindex/EBSDImage/IPFcolor.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/pyebsdindex/EBSDImage/IPFcolor.py b/pyebsdindex/EBSDImage/IPFcolor.py
index e1ade33..372bbcb 100644
--- a/pyebsdindex/EBSDImage/IPFcolor.py
+++ b/pyebsdindex/EBSDImage/IPFcolor.py
@@ -53,7 +53,7 @@ def makeipf(ebsddata, indexer, vector=np.array([0,0,1.0]), xsize = None, ysize =
       ipfphase[phcount, :, :] = qu2ipf_hex(quat, vector=vector)
     phcount += 1
   phase = ((ebsddata[-1]['phase']).copy()).clip(0).reshape(npoints,1)
-  ipfout = np.choose(phase, ipfphase).squeeze()
+  ipfout = np.choose(phase, ipfphase).reshape(npoints, 3)
   ipfout[ebsddata[-1]['fit'] > 179,:] = 0
 
 
@@ -108,12 +108,8 @@ def qu2ipf_cubic(quats, vector=np.array([0,0,1.0])):
   return ipf_color_cubic(xstalvect).clip(0.0, 1.0)
 
 def ipf_color_cubic(xstalvect):
-  shp = xstalvect.shape
-  if len(shp) == 1:
-    xstalv = np.copy(xstalvect.reshape(1,shp))
-  else:
-    xstalv = np.copy(xstalvect)
-  npoints = shp[0]
+  xstalv = np.array(np.atleast_2d(xstalvect), dtype=float)
+  npoints = xstalv.shape[0]
 
   xstalv = np.abs(xstalv)
   xstalv = np.sort(xstalv, axis=1)
@@ -256,12 +252,8 @@ def qu2ipf_hex(quats, vector=np.array([0,0,1.0])):
   return ipf_color_hex(xstalvect).clip(0.0, 1.0)
 
 def ipf_color_hex(xstalvect):
-  shp = xstalvect.shape
-  if len(shp) == 1:
-    xstalv = np.copy(xstalvect.reshape(1,shp))
-  else:
-    xstalv = np.copy(xstalvect)
-  npoints = shp[0]
+  xstalv = np.array(np.atleast_2d(xstalvect), dtype=float)
+  npoints = xstalv.shape[0]
 
   xstalv /= np.sqrt((xstalv ** 2).sum(-1))[..., np.newaxis]
   xstalv[xstalv[:, 2] < 0, :] *= -1
-- 
2.43.0


From 4ab18437b8a3ba46386d078d7a7090474065c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 74/90] fix: the cubic colour key depended on the length of the
 direction

---
 pyebsdindex/EBSDImage/IPFcolor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/EBSDImage/IPFcolor.py b/pyebsdindex/EBSDImage/IPFcolor.py
index 372bbcb..028fa9d 100644
--- a/pyebsdindex/EBSDImage/IPFcolor.py
+++ b/pyebsdindex/EBSDImage/IPFcolor.py
@@ -111,6 +111,7 @@ def ipf_color_cubic(xstalvect):
   xstalv = np.array(np.atleast_2d(xstalvect), dtype=float)
   npoints = xstalv.shape[0]
 
+  xstalv /= np.sqrt((xstalv ** 2).sum(-1))[..., np.newaxis]
   xstalv = np.abs(xstalv)
   xstalv = np.sort(xstalv, axis=1)
   # project to sterographic triangle
-- 
2.43.0


From 29acf1ab1fbdac33fd34a59d0e60fc3bacd5f29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 75/90] fix: plane families of a trigonal phase with four
 indices were cut into groups of three

---
 pyebsdindex/tripletvote.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 65e7a4f..bfe64b7 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -323,8 +323,7 @@ class BandIndexer():
     crystalmats = self.crystalmats
 
     poles = np.array(self.polefamilies)
-    if (self.lauecode == 62) or (self.lauecode == 6):
-      if self.polefamilies.shape[-1] == 4:
+    if self.polefamilies.shape[-1] == 4: # hexagonal or trigonal
         poles = crystal_sym.hex4poles2hex3poles(np.array(self.polefamilies))
     poles = poles.reshape((-1, 3))
 
-- 
2.43.0


From bb885e91e75f133f79392ff364a075aba3268a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 76/90] fix: rotations of integer vectors and quaternions were
 truncated to integers

---
 pyebsdindex/rotlib.py | 66 ++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index dad27c6..d20c3dc 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -86,9 +86,17 @@ def prepIn(a):
   return (aout,m,n,intype)
 
 
+def _require(a):
+  # The output has the type of the input: integers would be truncated.
+  a = np.require(a,requirements=['C','A'])
+  if a.dtype.kind != 'f':
+    a = a.astype(np.float64)
+  return a
+
+
 def eu2om(eu,p=P):
   '''Bunge Euler angles to orientation matrix'''
-  om = eu2omL(np.require(eu,requirements=['C','A']),p=p)
+  om = eu2omL(_require(eu),p=p)
   om = np.squeeze(om)
   return om
 
@@ -118,7 +126,7 @@ def eu2omL(euIn,p=P):
  
 def eu2ax(eu,p=P):
   '''Bunge Euler angles to axis-angle (radians)  '''
-  ax = eu2axL(np.require(eu,requirements=['C','A']),p=p)
+  ax = eu2axL(_require(eu),p=p)
   ax = np.squeeze(ax)
   return ax
 
@@ -159,7 +167,7 @@ def eu2axL(euIn,p=P):
 
 def eu2qu(eu,p=P):
   '''Bunge Euler angles to quaternions (scalar, axis)  '''
-  qu = eu2quL(np.require(eu,requirements=['C','A']),p=p)
+  qu = eu2quL(_require(eu),p=p)
   qu = np.squeeze(qu)
   return qu
 
@@ -191,9 +199,9 @@ def eu2quL(euIn,p=P):
 def om2eu(om,p=P):
   '''orientation matrix to Bunge Euler angles'''
   if om.ndim == 3:
-    omIn = np.require(om,requirements=['C','A'])
+    omIn = _require(om)
   elif om.ndim == 2:
-    omIn = np.require(om,requirements=['C','A']).reshape((1,3,3))
+    omIn = _require(om).reshape((1,3,3))
   else:
     return -1
   eu = om2euL(omIn,p=p)
@@ -236,7 +244,7 @@ def om2euL(om, p=P):
 
 def ax2om(ax,p=P):
   '''axis-angle (radians) to orientation matrix  '''
-  om = ax2omL(np.require(ax,requirements=['C','A']),p=p)
+  om = ax2omL(_require(ax),p=p)
   om = np.squeeze(om)
   return om
 
@@ -274,7 +282,7 @@ def ax2omL(axIn,p=P):
 
 def qu2eu(qu,p=P):
   '''quaternions (scalar, axis) to Bunge Euler angles  '''
-  eu = qu2euL(np.require(qu,requirements=['C','A']),p=p)
+  eu = qu2euL(_require(qu),p=p)
   eu = np.squeeze(eu)
   return eu
 
@@ -317,7 +325,7 @@ def qu2euL(quIn,p=P):
 
 def ax2ho(ax,p=P):
   '''axis-angle (radians) to homochoric vector  '''
-  ho = ax2hoL(np.require(ax,requirements=['C','A']))
+  ho = ax2hoL(_require(ax))
   ho = np.squeeze(ho)
   return ho
 
@@ -341,7 +349,7 @@ def ax2hoL(axIn,p=P):
 
 def ho2ax(ho,p=P):
   '''homochoric vector to axis-angle (radians)   '''
-  ax = ho2axL(np.require(ho,requirements=['C','A']))
+  ax = ho2axL(_require(ho))
   ax = np.squeeze(ax)
   return ax
 
@@ -395,7 +403,7 @@ def ho2axL(hoIn,p=P):
 
 def ro2ax(ro,p=P):
   '''Rodrigues-Frank vector to axis-angle (radians)  '''
-  ax = ro2axL(np.require(ro,requirements=['C','A']),p=p)
+  ax = ro2axL(_require(ro),p=p)
   ax = np.squeeze(ax)
   return ax
 
@@ -431,7 +439,7 @@ def ro2axL(roIn,p=P):
 
 def ax2ro(ax,p=P):
   '''axis-angle (radians) to Rodrigues-Frank vector  '''
-  ro = ax2roL(np.require(ax,requirements=['C','A']),p=p)
+  ro = ax2roL(_require(ax),p=p)
   ro = np.squeeze(ro)
   return ro
 
@@ -460,7 +468,7 @@ def ax2roL(axIn,p=P):
 
 def ax2qu(ax,p=P):
   '''axis-angle (radians) to quaternion (scalar - vector)  '''
-  qu = ax2quL(np.require(ax,requirements=['C','A']),p=p)
+  qu = ax2quL(_require(ax),p=p)
   qu = np.squeeze(qu)
   return qu
 
@@ -492,7 +500,7 @@ def ax2quL(axIn,p=P):
 
 def ro2ho(ro,p=P):
   '''Rodrigues-Frank  to homochoric  '''
-  ho = ro2hoL(np.require(ro,requirements=['C','A']),p=p)
+  ho = ro2hoL(_require(ro),p=p)
   ho = np.squeeze(ho)
   return ho
 
@@ -523,7 +531,7 @@ def ro2hoL(roIn,p=P):
 
 def qu2om(qu,p=P):
   '''quaternion (scalar-vector) to orientation matrix  '''
-  om = qu2omL(np.require(qu,requirements=['C','A']),p=p)
+  om = qu2omL(_require(qu),p=p)
   om = np.squeeze(om)
   return om
 
@@ -572,9 +580,9 @@ def qu2omL(quIn,p=P):
 def om2ax_old(om,p=P):
   '''orientation matrix to axis-angle (radians) -- depreciated now use qu2ax(om2qu()) '''
   if om.ndim == 3:
-    omIn = np.require(om,requirements=['C','A'])
+    omIn = _require(om)
   elif om.ndim == 2:
-    omIn = np.require(om,requirements=['C','A']).reshape((1,3,3))
+    omIn = _require(om).reshape((1,3,3))
   else:
     return -1
   ax = om2axL(omIn,p=p)
@@ -677,9 +685,9 @@ def om2axL_2(om, p=P): # kept for historical reasons
 def om2qu(om,p=P):
   '''orientation matrix to quaternion (scalar-vector)  '''
   if om.ndim == 3:
-    omIn = np.require(om,requirements=['C','A'])
+    omIn = _require(om)
   elif om.ndim == 2:
-    omIn = np.require(om,requirements=['C','A']).reshape((1,3,3))
+    omIn = _require(om).reshape((1,3,3))
   else:
     return -1
   qu = om2quL(omIn,p=p)
@@ -734,7 +742,7 @@ def om2quL(om, p=P):
 
 def qu2ax(qu,p=P):
   '''quaternion (scalar-vector) to axis-angle (radians)  '''
-  ax = qu2axL(np.require(qu,requirements=['C','A']),p=p)
+  ax = qu2axL(_require(qu),p=p)
   ax = np.squeeze(ax)
   return ax
 
@@ -768,7 +776,7 @@ def qu2axL(quIn,p=P):
 
 def qu2ro(qu,p=P):
   '''quaternion (scalar-vector) to Rodrigues-Frank vector  '''
-  ro = qu2roL(np.require(qu,requirements=['C','A']),p=p)
+  ro = qu2roL(_require(qu),p=p)
   ro = np.squeeze(ro)
   return ro
 
@@ -808,7 +816,7 @@ def qu2roL(quIn,p=P):
 
 def qu2ho(qu,p=P):
   '''quaternion (scalar-vector) to homochoric  '''
-  ho = qu2hoL(np.require(qu,requirements=['C','A']),p=p)
+  ho = qu2hoL(_require(qu),p=p)
   ho = np.squeeze(ho)
   return ho
 
@@ -840,7 +848,7 @@ def qu2hoL(quIn,p=P):
 
 def ho2cu(ho,p=P):
   ''' homochoric to cubochoric  '''
-  cu = ho2cuL(np.require(ho,requirements=['C','A']),p=p)
+  cu = ho2cuL(_require(ho),p=p)
   cu = np.squeeze(cu)
   return cu
 
@@ -974,7 +982,7 @@ def ho2cuL(hoIn,p=P):
 
 def cu2ho(cu,p=P):
   ''' cubochoric to homochoric  '''
-  ho = cu2hoL(np.require(cu,requirements=['C','A']),p=p)
+  ho = cu2hoL(_require(cu),p=p)
   ho = np.squeeze(ho)
   return ho
 
@@ -1454,7 +1462,7 @@ def lambert3DBallToCube(xyz):
 
 def quatnorm(qu):
   '''quaternion normalization -- first term >=0 , unit quaternion length'''
-  qout = quatnormL(np.require(qu,requirements=['C','A']))
+  qout = quatnormL(_require(qu))
   qout = np.squeeze(qout)
   return qout
 
@@ -1477,7 +1485,7 @@ def quatnormL(qu,unitNorm=True):
 
 def quatconj(qu):
   '''Provides a quaternion conjugate. For rotations quaternions, this is the inverse quaternion'''
-  qout = quatconjL(np.require(qu,requirements=['C','A']))
+  qout = quatconjL(_require(qu))
   qout = np.squeeze(qout)
   return qout
 
@@ -1494,7 +1502,7 @@ def quatconjL(quin,unitNorm=True):
 
 def quatave(qu):
   '''Provides a quaternion average. Assumes quaterions are closely clustered'''
-  qout = quataveL(np.require(qu,requirements=['C','A']))
+  qout = quataveL(_require(qu))
   qout = np.squeeze(qout)
   return qout
 
@@ -1520,7 +1528,7 @@ def quataveL(quin,unitNorm=True):
 
 def quat_multiply(q1,q2,p=P):
   '''quaternion multiplication. Can be q1(Nx4) x q2(N x4) or q1(4) x q2(Nx4)'''
-  q1q2 = quat_multiplyL(np.require(q1,requirements=['C','A']),np.require(q2,requirements=['C','A']),p=p)
+  q1q2 = quat_multiplyL(_require(q1),_require(q2),p=p)
   q1q2 = np.squeeze(q1q2)
   return q1q2
 
@@ -1584,7 +1592,7 @@ def quat_multiply1(q1,q2,p=P):
 
 def quat_vector(q,v,p=P):
   '''quaternion vector rotation. Can be q1(Nx4) x v(Nx3) or q1(4) x v(Nx3) or q1(Nx4) x v(3)'''
-  vout = quat_vectorL(np.require(q,requirements=['C','A']),np.require(v,requirements=['C','A']),p=p)
+  vout = quat_vectorL(_require(q),_require(v),p=p)
   vout = np.squeeze(vout)
   return vout
 
@@ -1747,7 +1755,7 @@ def randomquat(n=1):
 # 
 def axnorm(ax):
   '''axis-angle normalization -- unit vector length, corrects negative angles and angles over 2Pi'''
-  axout = axnormL(np.require(ax,requirements=['C','A']))
+  axout = axnormL(_require(ax))
   axout = np.squeeze(axout)
   return axout
 
-- 
2.43.0


From edbfa3cc3f7b4d72f810f53124cc38ba36c9f657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 77/90] fix: a scale bar turned an image of one value into nan

---
 pyebsdindex/EBSDImage/micronbar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/EBSDImage/micronbar.py b/pyebsdindex/EBSDImage/micronbar.py
index c87e1c4..8443fe8 100644
--- a/pyebsdindex/EBSDImage/micronbar.py
+++ b/pyebsdindex/EBSDImage/micronbar.py
@@ -148,7 +148,8 @@ def addmicronbar(image,
   rescaleim = image.astype(np.float32)
   if rescale == True:
     rescaleim -= rescaleim.min()
-    rescaleim *= (1.0 / (rescaleim.max())) * 0.999
+    if rescaleim.max() > 0:
+      rescaleim *= (1.0 / (rescaleim.max())) * 0.999
 
   rescaleim = rescaleim.reshape((imshape[0], imshape[1], channels))
   stepadjust = 1.0
-- 
2.43.0


From d6b677be39bdfd571cb9804c92582e4dc1b36f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 78/90] fix: planes and their inverse are the same band for
 every Laue group

The rotations of trigonal, orthorhombic, monoclinic and triclinic (and some other)
groups do not bring a plane onto its inverse; only one of the two was in the library,
so the angles and orientations that need the other one could not be found.
---
 pyebsdindex/tripletvote.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index bfe64b7..94761f1 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -333,10 +333,14 @@ class BandIndexer():
     sympolesComplete = [] # list of all HKL variants with no duplicates
     nFamComplete = np.zeros(npoles, dtype = np.int32) # number of
     nFamily = np.zeros(npoles, dtype = np.int32)
+    inversion = np.zeros(npoles, dtype = np.uint8) # 1 if the rotations do not bring the pole onto its inverse
     polesFlt = np.array(poles, dtype=np.float32) # convert the input poles to floating point (but still HKL int values)
 
     for i in range(npoles):
       family = self._symrotpoles(polesFlt[i, :], crystalmats) #rotlib.quat_vector(symmetry,polesFlt[i,:])
+      # a band does not tell a plane from its inverse, and not all of the rotation groups contain both.
+      inversion[i] = not np.any(np.all(np.abs(family + polesFlt[i, :]) < 0.1, axis=-1))
+      family = np.concatenate((family, -1.0*family))
       uniqHKL = self._hkl_unique(family, reduceInversion=False)
       uniqHKL = np.flip(uniqHKL, axis=0)
       sympolesComplete.append(uniqHKL)
@@ -448,7 +452,8 @@ class BandIndexer():
                    'familyid': completePoleFamId,
                    'angTable' : angTable,
                    'nFamily'  : nFamComplete,
-                   'famIndex' : famindx0
+                   'famIndex' : famindx0,
+                   'inversion': inversion
                   }
 
     self.angpairs = {
@@ -539,13 +544,14 @@ class BandIndexer():
     libFamID = self.completelib['familyid']
     nFam = self.completelib['nFamily']
     libPolesCart = self.completelib['polesCart']
+    libInversion = self.completelib['inversion']
     angTol = self.angTol
     n_band_early = np.int64(self.nband_earlyexit)
 
     # this will check the vote, and return the exact band matching to specific poles of the best fitting solution.
     fit, polematch, polevalid, nMatch, whGood, ij, R, fitb = \
       self._assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam,
-                            np.asarray(band_intensity) >= 1e-6)
+                            np.asarray(band_intensity) >= 1e-6, libInversion)
 
     # check how often the indexed band matched the top voting band family.
     acc_correct =  np.sum(np.array((polevalid > 0) & #take valid poles
@@ -1228,7 +1234,7 @@ class BandIndexer():
 
   @staticmethod
   @numba.jit(nopython=True, cache=True, fastmath=True,parallel=False)
-  def _assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam, bandvalid ):
+  def _assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam, bandvalid, libInversion ):
 
     eps = np.float32(1.0e-12)
     pflt = np.asarray(libPolesCart, dtype=np.float32)
@@ -1302,7 +1308,11 @@ class BandIndexer():
           # divided by the angular deviation.
           # Use the TRIAD method for finding the rotation matrix
 
-          Rtry = np.zeros((n12,3,3), dtype = np.float32)
+          # when the inverse of the first pole is not symmetrically equivalent, the first band could be either of them.
+          ntry = n12
+          if libInversion[f1] > 0:
+            ntry = 2*n12
+          Rtry = np.zeros((ntry,3,3), dtype = np.float32)
 
           #score = np.zeros((n01), dtype = np.float32)
           A = np.zeros((3,3), dtype = np.float32)
@@ -1315,15 +1325,17 @@ class BandIndexer():
           A[:,0] = p1
           score = -1.0
 
-          for i in range(n12):
-            p2 = pflt[wh12[i], :]
+          for i in range(ntry):
+            sgn = np.float32(1.0) if i < n12 else np.float32(-1.0)
+            p2 = pflt[wh12[i % n12], :]
             ntemp = np.linalg.norm(p2) + 1.0e-35
             p2 = p2 / ntemp
             p1p2c = np.cross(p1,p2)
             ntemp = np.linalg.norm(p1p2c) + 1.0e-35
             p1p2c = p1p2c / ntemp
-            A[:,1] = p1p2c
-            A[:,2] = np.cross(p1,p1p2c)
+            A[:,0] = sgn*p1
+            A[:,1] = p1p2c # the same for both poles inverted
+            A[:,2] = sgn*np.cross(p1,p1p2c)
             AB = (A.dot(B))
             Rtry[i,:,:] = AB
 
-- 
2.43.0


From 4140dbe9b592c47ce944158fbd8bba4053e291aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 79/90] fix: rotations.eu2ax for arrays with a dimension of
 length one

---
 pyebsdindex/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotations.py b/pyebsdindex/rotations.py
index 1563d40..6e5c76f 100644
--- a/pyebsdindex/rotations.py
+++ b/pyebsdindex/rotations.py
@@ -277,7 +277,7 @@ def eu2ax(eu):
                                 -P/tau*  np.sin(sigma),
                                  alpha
                                 ]))
-    ax[(alpha<0.0).squeeze()] *=-1
+    ax[(alpha<0.0).squeeze(-1)] *=-1
     return ax
 
 
-- 
2.43.0


From 5657db70ad5a82c5b9ed1cbe3b0793abddfe7c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 80/90] fix: import of rotlib in misorientation

---
 pyebsdindex/misorientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/misorientation.py b/pyebsdindex/misorientation.py
index cf4df04..7442df9 100644
--- a/pyebsdindex/misorientation.py
+++ b/pyebsdindex/misorientation.py
@@ -42,7 +42,7 @@ tempdir = tempdir.joinpath('.pyebsdindex').joinpath('numbacache')
 Path(tempdir).mkdir(parents=True, exist_ok=True)
 os.environ["NUMBA_CACHE_DIR"] = str(tempdir)+str(os.sep)
 
-import rotlib
+from pyebsdindex import rotlib
 
 def misorientcubic_quick(q1,q2):
   '''Misorientation between two cubic crystals using the quaternion trick from Sutton and Buluffi'''
-- 
2.43.0


From f4c466505c1d21a0df7f27e087b4f79e8c00ef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 81/90] fix: cells of the Radon transform without pixels made
 false bands

---
 pyebsdindex/band_detect.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index e3116e3..7505bb5 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -83,6 +83,7 @@ class BandDetect():
     self.rhoMax = None
     self.radonPlan = None
     self.rdnNorm = None
+    self.rdnfill = None
     self.tSigma = tSigma
     self.rSigma = rSigma
     self.tSigmaAuto = tSigma is None # follow the Radon cell size
@@ -206,6 +207,7 @@ class BandDetect():
 
       rdnmask = rdnmask > 0
       rdnmask = rdnmask.squeeze()
+      self.rdnfill = self._nearest_rho(rdnmask)
 
       if self.rhoMaskFrac >= 1:
         s = np.ones(( 3, 1))
@@ -541,6 +543,10 @@ class BandDetect():
     else:
       radon = radonIn
     shprdn = radon.shape
+    # cells with no pixels on their line have no value; an arbitrary one would make a step (and a false band).
+    if self.rdnfill is not None:
+      rdn = radon[self.padding[0]:shp[0]-self.padding[0], self.padding[1]:shp[1]-self.padding[1],:]
+      rdn[...] = np.take_along_axis(rdn, self.rdnfill[:,:,np.newaxis], axis=0)
     #rdnNormP = self.radonPad(radon,rPad=0,tPad=self.peakPad[1],mirrorTheta=True)
     if self.padding[1] > 0:
       radon[:,0:self.padding[1],:] = np.flip(radon[:,-2 * self.padding[1]:-self.padding[1],:],axis=0)
@@ -770,6 +776,17 @@ class BandDetect():
     patdisplay += minpat*(patmask ==0).astype(float)
 
     subpat.imshow(patdisplay, cmap='gray')
+  def _nearest_rho(self, valid):
+    # for each Radon cell, the row of the nearest cell with the same theta that has pixels on its line.
+    if np.all(valid):
+      return None
+    fill = np.broadcast_to(np.arange(valid.shape[0]).reshape(-1,1), valid.shape).copy()
+    for i in range(valid.shape[1]):
+      wh = np.nonzero(valid[:,i])[0]
+      if wh.size > 0:
+        fill[:,i] = wh[np.argmin(np.abs(fill[:,i].reshape(-1,1) - wh.reshape(1,-1)), axis=1)]
+    return fill
+
   def _circmask(self, im):
     nx = im.shape[-1]
     ny = im.shape[-2]
-- 
2.43.0


From b12b1746d2a12fc04b58761088aa8f1d585fec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 82/90] fix: OpenCL band detection scaled float patterns by
 their batch and did not load 32-bit integers

---
 pyebsdindex/opencl/band_detect_cl.py | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index 5a3fcd0..e08067a 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -66,22 +66,13 @@ class BandDetect(band_detect.BandDetect):
     try:
       tic0 = timer()
       tic = timer()
-      ndim = patternsIn.ndim
-      if ndim == 2:
-        patterns = (np.expand_dims(patternsIn, axis=0)).copy()
-      else:
-        patterns = (patternsIn).copy()
-
-      pscale = np.array([0.0, 1.0])
-
-      if patterns.dtype.kind =='f':
-        mxp = patterns.max()
-        mnp = patterns.min()
-        patterns -= mnp
-        patterns *= (2**16-2.0)/(mxp - mnp)
-        pscale[:] = np.array([mnp,(mxp - mnp) ])
-        patterns = patterns.astype(np.uint16)
-
+      # the device reads 8 and 16 bit unsigned integers and 32 bit floats
+      dtype = patternsIn.dtype.type
+      if dtype not in (np.uint8, np.uint16):
+        dtype = np.float32
+      patterns = np.array(patternsIn, dtype=dtype, order='C')
+      if patterns.ndim == 2:
+        patterns = np.expand_dims(patterns, axis=0)
 
       shape = patterns.shape
       nPats = shape[0]
@@ -160,11 +151,6 @@ class BandDetect(band_detect.BandDetect):
         rdnConv = None
 
         blabeltime += timer() - tic1
-      # correct any scaling that happened due to float-int conversion.
-      bandData['avemax'] *= pscale[1]
-      bandData['avemax'] += pscale[0]
-      bandData['max'] *= pscale[1]
-      bandData['max'] += pscale[0]
       tottime = timer() - tic0
       # going to manually clear the clparams queue -- this should clear the memory of the queue off the GPU
 
-- 
2.43.0


From b1d9a8bcabbf21039fc12501bf8f46fb88873bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 83/90] fix: OpenCL band detection did not join 180 to 0
 degrees and took negative values of the Radon transform for missing ones

---
 pyebsdindex/opencl/band_detect_cl.py |  6 +++++-
 pyebsdindex/opencl/clkernels.cl      | 15 +++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index e08067a..42760d6 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -296,7 +296,7 @@ class BandDetect(band_detect.BandDetect):
                           size=int((self.nRho + 2 * padding[0]) * (self.nTheta + 2 * padding[1]) * nImCL * 4))
 
     rdnIndx_gpu = cl.Buffer(ctx, mf.READ_ONLY | mf.COPY_HOST_PTR, hostbuf=self.radonPlan.indexPlan)
-    cl.enqueue_fill_buffer(queue, radon_gpu, np.float32(self.radonPlan.missingval), 0, radon_gpu.size)
+    cl.enqueue_fill_buffer(queue, radon_gpu, np.float32(-1.0e30), 0, radon_gpu.size) # MISSING in clkernels.cl
     prg.radonSum(queue,(nImChunk,rdnstep),None,rdnIndx_gpu,image_gpuflt,radon_gpu,
                   imstep, indxstep,
                  shpRdn[0], shpRdn[1],
@@ -316,6 +316,7 @@ class BandDetect(band_detect.BandDetect):
       cl.enqueue_copy(queue,radon,radon_gpu,is_blocking=True)
       radon_gpu.release()
       radon = radon[:,:, 0:nIm]
+      radon[radon <= np.float32(-1.0e30)] = self.radonPlan.missingval
       radon_gpu = None
       #clparams = None
       return radon, clparams
@@ -403,6 +404,9 @@ class BandDetect(band_detect.BandDetect):
 
     prg.radonPadRho2(queue, (shp[2], shp[1], 1), None, rdn_gpu,
                  np.uint64(shp[0]),np.uint64(shp[1]),np.uint64(shp[0]//2-1))
+    # 0 and 180 degrees are the same direction, with rho reversed
+    prg.radonPadTheta(queue, (shp[2], shp[0], 1), None, rdn_gpu,
+                      np.uint64(shp[0]), np.uint64(shp[1]), np.uint64(self.padding[1]))
 
     kern_gpu = None
     if separableKernel == False:
diff --git a/pyebsdindex/opencl/clkernels.cl b/pyebsdindex/opencl/clkernels.cl
index aaa7ffd..e4b71ac 100644
--- a/pyebsdindex/opencl/clkernels.cl
+++ b/pyebsdindex/opencl/clkernels.cl
@@ -134,6 +134,9 @@ __kernel void backDiv( __global float16 *im1, __global const float *back,
 }
 
 
+// marks cells of the radon without a value.  Patterns (with a background subtracted) can be negative.
+#define MISSING -1.0e30f
+
 __kernel void radonSum(
       __global const unsigned long int *rdnIndx, __global const float16 *images, __global float16 *radon,
       const unsigned long int imstep, const unsigned long int indxstep,
@@ -167,7 +170,7 @@ __kernel void radonSum(
     if (count > 1.0e-6){
       radon[rndIndx] = sum/count;}
     else{
-      radon[rndIndx] = -1.0;
+      radon[rndIndx] = MISSING;
     }
     
     }
@@ -228,9 +231,9 @@ __kernel void radonPadTheta(
     gid_rdn1 =   (nTheta * gid_rho);
     gid_rdn2 =   (nTheta * (nRho -1 - gid_rho));
 
-    for (i = 0; i <= thetaPad; ++i){
-        radon[(i + gid_rdn1)*nImChunk + gid_im] = radon[ (gid_rdn2 + (nTheta-1 - (2 * thetaPad)) + i) * nImChunk + gid_im ];
-        radon[ (gid_rdn2 + (nTheta-1 - ( thetaPad)) + i) * nImChunk + gid_im] = radon[ (gid_rdn1 + thetaPad + i)*nImChunk +gid_im];
+    for (i = 0; i < thetaPad; ++i){
+        radon[(i + gid_rdn1)*nImChunk + gid_im] = radon[(gid_rdn2 + (nTheta - 2 * thetaPad) + i) * nImChunk + gid_im];
+        radon[(gid_rdn1 + (nTheta - thetaPad) + i) * nImChunk + gid_im] = radon[(gid_rdn2 + thetaPad + i) * nImChunk + gid_im];
     }
 
   }
@@ -293,11 +296,11 @@ __kernel void radonPadTheta(
         gid_rdn1 = ( (nTheta* (rhoPad - i)) + gid_theta)*nImChunk + z;
         gid_rdn2 = ((nTheta* (nRho-1-rhoPad+i)) + gid_theta)*nImChunk + z;
         
-        if (radon[gid_rdn1] < 0){
+        if (radon[gid_rdn1] <= MISSING){
           radon[gid_rdn1] = rd1p;
         }
 
-        if (radon[gid_rdn2] < 0){
+        if (radon[gid_rdn2] <= MISSING){
           radon[gid_rdn2] = rd2p;
         }
         rd1p =  radon[gid_rdn1] ;
-- 
2.43.0


From be02c93aff715b1425f39f0b7ab18f8c2cfb87db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 84/90] fix: OpenCL band detection used device memory that was
 never written

---
 pyebsdindex/opencl/band_detect_cl.py | 11 ++++++-----
 pyebsdindex/opencl/clkernels.cl      |  3 +++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index 42760d6..8af21a0 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -437,9 +437,10 @@ class BandDetect(band_detect.BandDetect):
       kshp = np.asarray(k0x.shape,dtype=np.int32)
 
       kern_gpu_x = cl.Buffer(ctx,mf.READ_ONLY | mf.COPY_HOST_PTR,hostbuf=k0x)
-      prg.convolution3d2d(queue,(np.int32((shp[1]-2*pad[1])),np.int32((shp[0]-2*pad[0])), nImChunk),None,
+      # all rows, the second convolution needs those above and below
+      prg.convolution3d2d(queue,(np.int32((shp[1]-2*pad[1])),np.int32(shp[0]), nImChunk),None,
                           rdn_gpu,kern_gpu_x,np.int32(shp[1]),np.int32(shp[0]),np.int32(shp[2]),
-                          np.int32(kshp[1]),np.int32(kshp[0]),np.int32(pad[1]),np.int32(pad[0]),tempConvbuff)
+                          np.int32(kshp[1]),np.int32(kshp[0]),np.int32(pad[1]),np.int32(0),tempConvbuff)
 
       kshp = np.asarray(self.kernel[0,:,:].shape,dtype=np.int32)
       k0y = np.require(self.kernel[0, :, np.int32(kshp[1] / 2)], requirements=['C', 'A', 'W', 'O'], dtype=np.float32)
@@ -574,10 +575,10 @@ class BandDetect(band_detect.BandDetect):
     #                         np.int64(shp[1]),np.int64(shp[0]),
     #                         np.int64(self.padding[1]),np.int64(self.padding[0]),
     #                         np.int64(self.peakPad[1]),np.int64(1))
-    # calculate the max in the x direction
-    prg.morphDilateKernelBF(queue, (np.uint32(shp[1]), np.uint32(nR), nImChunk), None, rdn_gpu, lmaxX,
+    # calculate the max in the x direction, also of the padding rows, which are within reach of the y direction
+    prg.morphDilateKernelBF(queue, (np.uint32(shp[1]), np.uint32(shp[0]), nImChunk), None, rdn_gpu, lmaxX,
                             np.int64(shp[1]), np.int64(shp[0]),
-                            np.int64(0), np.int64(self.padding[0]),
+                            np.int64(0), np.int64(0),
                             np.int64(self.peakPad[1]), np.int64(1))
     # take the max in the x output, use as input, and calculate in the y direction
     prg.morphDilateKernelBF(queue, (np.uint32(nT), np.uint32(nR), nImChunk), None, lmaxX, lmaxXY,
diff --git a/pyebsdindex/opencl/clkernels.cl b/pyebsdindex/opencl/clkernels.cl
index e4b71ac..b467ca2 100644
--- a/pyebsdindex/opencl/clkernels.cl
+++ b/pyebsdindex/opencl/clkernels.cl
@@ -609,6 +609,9 @@ __kernel void maxlabel( __global const uchar *maxlocin,__global const float *max
   for (i=0;i<lnmax;++i){
     maxloc[i+lnmax*z] = 0;
     maxval[i+lnmax*z] = -1.0e12f;
+    aveloc[i+lnmax*z] = (float2) (0.0f);
+    aveval[i+lnmax*z] = 0.0f;
+    width[i+lnmax*z] = 0.0f;
   }
 
    
-- 
2.43.0


From 7d355ac434eb540586220a04e8231e5137e3585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 85/90] fix: OpenCL NLPAR read and wrote beyond the pattern and
 beyond scans smaller than the search window

---
 pyebsdindex/opencl/clnlpar.cl | 76 +++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 31 deletions(-)

diff --git a/pyebsdindex/opencl/clnlpar.cl b/pyebsdindex/opencl/clnlpar.cl
index 4dcd022..8fb3afb 100644
--- a/pyebsdindex/opencl/clnlpar.cl
+++ b/pyebsdindex/opencl/clnlpar.cl
@@ -74,6 +74,33 @@ void print16(const float16 v1){
 }
 
 
+// index of the neighbor i in a scan of n rows (columns), mirrored at the edges
+long mirror(long i, const long n);
+long mirror(long i, const long n){
+  const long p = n > 1 ? 2*(n-1) : 1;
+  i = (i < 0 ? -i : i) % p;
+  return i < n ? i : p - i;
+}
+
+// the 16 values from p on, of which only n belong to the pattern
+float16 load16(const __global float *p, const long n);
+float16 load16(const __global float *p, const long n){
+  if (n >= 16) {return vload16(0, p);}
+  float v[16];
+  for(long i=0; i<16; ++i){v[i] = i < n ? p[i] : 0.0f;}
+  return (float16) (v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15]);
+}
+
+void store16(__global float *p, const float16 d, const long n);
+void store16(__global float *p, const float16 d, const long n){
+  if (n >= 16) {
+    vstore16(d, 0, p);
+  } else {
+    const float v[16] = {d.s0,d.s1,d.s2,d.s3,d.s4,d.s5,d.s6,d.s7,d.s8,d.s9,d.sa,d.sb,d.sc,d.sd,d.se,d.sf};
+    for(long i=0; i<n; ++i){p[i] = v[i];}
+  }
+}
+
 __kernel void nlloadpat8bit(__global uchar *datain, __global float *dataout){
   const unsigned long int x = get_global_id(0);
   uchar imVal =  datain[x];
@@ -132,7 +159,7 @@ __kernel void calcsigma( __global float *data, __global float16 *mask,
       count = 0; 
       
       
-      d0 =  *(__global float16*) (data + indx0+16*z); 
+      d0 =  load16(data + indx0+16*z, npatpoint-16*z); 
       //if (z == 0){print16(d0);}
       //
       maskchunk = mask[z];
@@ -143,18 +170,16 @@ __kernel void calcsigma( __global float *data, __global float16 *mask,
       
       for(j=y-nn; j<=y+nn; ++j){
           
-          indx_j =  (j >= 0) ? (j): abs(j);
-          indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j = mirror(j, nrow);
           indx_j = ncol * indx_j;
           
           for(i=x-nn; i<=x+nn; ++i){      
             
-              indx_ij =  (i >= 0) ? (i): abs(i);
-              indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+              indx_ij = mirror(i, ncol);
               indx_ij = npatpoint*(indx_ij + indx_j);
               
               mask1 = mask0;
-              d1 =  *(__global float16*) (data + indx_ij+16*z); 
+              d1 =  load16(data + indx_ij+16*z, npatpoint-16*z); 
               
 
               mask1 =  d1 < (float16) (maxlim) ? mask1 : (float16) (0.0);
@@ -226,14 +251,12 @@ __kernel void normd(
     q = 0; 
     for(j=y-nn; j<=y+nn; ++j){
           
-          indx_j =  (j >= 0) ? (j): abs(j);
-          indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j = mirror(j, nrow);
           indx_j = ncol * indx_j;
           
           for(i=x-nn; i<=x+nn; ++i){  
               
-               indx_ij =  (i >= 0) ? (i): abs(i);
-               indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+               indx_ij = mirror(i, ncol);
                indx_ij =  (indx_ij + indx_j);
                sigma_ij = sigma[indx_ij];
                sigma_ij *= sigma_ij;
@@ -308,7 +331,7 @@ __kernel void calcnlpar(
       count = 0; 
       
       
-      d0 =  *(__global float16*) (data + indx0+16*z); 
+      d0 =  load16(data + indx0+16*z, npatpoint-16*z); 
       
       mask0 = mask[z];
       mask0 =  (mask0 > (float16) 1.e-3) ? (float16) 1.0 : (float16) 0.0; 
@@ -317,21 +340,19 @@ __kernel void calcnlpar(
       
       for(j=y-sr; j<=y+sr; ++j){
           
-          indx_j =  (j >= 0) ? (j): abs(j);
-          indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j = mirror(j, nrow);
           indx_j = ncol * indx_j;
           
           for(i=x-sr; i<=x+sr; ++i){
             
-              indx_ij =  (i >= 0) ? (i): abs(i);
-              indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+              indx_ij = mirror(i, ncol);
               
               indx_ij = (indx_ij + indx_j);
               
               indx_ij *= npatpoint;
               
               mask1 = mask0;
-              d1 =  *(__global float16*) (data + indx_ij+16*z); 
+              d1 =  load16(data + indx_ij+16*z, npatpoint-16*z); 
               
 
               mask1 =  d1 < (float16) (maxlim) ? mask1 : (float16) (0.0);
@@ -368,16 +389,14 @@ __kernel void calcnlpar(
   nn = 1.0;
   for(j=y-sr; j<=y+sr; ++j){
           
-          indx_j =  (j >= 0) ? (j): abs(j);
-          indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j = mirror(j, nrow);
           indx_j = ncol * indx_j;
           
           for(i=x-sr; i<=x+sr; ++i){
               
               dd = d[count]; 
               if (dd > 1.e-3){
-                indx_ij =  (i >= 0) ? (i): abs(i);
-                indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+                indx_ij = mirror(i, ncol);
                 
                 indx_ij = (indx_ij + indx_j);
                 
@@ -418,34 +437,28 @@ __kernel void calcnlpar(
 // and place in the output array
   for(z = 0; z<ndatchunk; ++z){
       count = 0; 
-      d0 =  *(__global float16*) (data + indx0+16*z); 
-      
-      mask0 = mask[z];
-      mask0 =  (mask0 > (float16) -1.e-3) ? (float16) 1.0 : (float16) 0.0; 
+      d0 = (float16) (0.0);
       
       for(j=y-sr; j<=y+sr; ++j){
           
-          indx_j =  (j >= 0) ? (j): abs(j);
-          indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j = mirror(j, nrow);
           indx_j = ncol * indx_j;
           
           for(i=x-sr; i<=x+sr; ++i){
             
-              indx_ij =  (i >= 0) ? (i): abs(i);
-              indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+              indx_ij = mirror(i, ncol);
               
               indx_ij = (indx_ij + indx_j);
               
               indx_ij *= npatpoint;
               
               
-              d1 =  *(__global float16*) (data + indx_ij+16*z); 
+              d1 =  load16(data + indx_ij+16*z, npatpoint-16*z); 
               
               
               d1 *= (float16) d[count]; 
-              d1 *= mask0; 
               
-              *(__global float16*) (dataout + indx0+16*z) += d1; 
+              d0 += d1; 
               
               //writeadd16(&(dataout[indx0+16*z]), &d1 );
 
@@ -455,6 +468,7 @@ __kernel void calcnlpar(
               count += 1; 
           }
       }
+      store16(dataout + indx0+16*z, d0, npatpoint-16*z);
   }
 
 
-- 
2.43.0


From cc38e7779718567e69ffacb2555847c137eb28c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 86/90] fix: OpenCL NLPAR used the noise of the point itself
 for its neighbors and added the difference offset per 16 pixels

---
 pyebsdindex/opencl/clnlpar.cl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/opencl/clnlpar.cl b/pyebsdindex/opencl/clnlpar.cl
index 8fb3afb..a0b0d9e 100644
--- a/pyebsdindex/opencl/clnlpar.cl
+++ b/pyebsdindex/opencl/clnlpar.cl
@@ -366,7 +366,7 @@ __kernel void calcnlpar(
               dd = sum16(&d1);
               if (indx_ij == indx0) {
                 dd = -1.0;
-                diff_step[count] +=  diff_offset;
+                diff_step[count] = diff_offset;
               } else{
                 dd = dd;
                 diff_step[count] = 0.0; //diff_offset;
@@ -400,7 +400,7 @@ __kernel void calcnlpar(
                 
                 indx_ij = (indx_ij + indx_j);
                 
-                sigma_ij = sigma[indx_xy];
+                sigma_ij = sigma[indx_ij];
                 sigma_ij *= sigma_ij; 
                 nn = n[count]; 
                 dd -= nn*(sigma_ij+sigma0);
-- 
2.43.0


From cc968cea3cd2387c3901bc14b47d5765de1a44a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 87/90] fix: OpenCL NLPAR ignored changes of mask, noise and
 number type, and rescaled to the wrong maximum

---
 pyebsdindex/opencl/nlpar_cl.py    | 27 ++++++++++++---------------
 pyebsdindex/opencl/nlpar_clray.py | 30 +++++++++++++++++-------------
 2 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index 1796ed6..0517c8a 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -127,7 +127,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     print("Range of lambda values: ", lamopt_values.flatten())
     print("Optimal Choice: ", np.median(lamopt_values))
     if autoupdate == True:
-      self.lam = np.median(np.mean(lamopt_values, axis=0))
+      self.lam = np.median(lamopt_values)
     if self.sigma is None:
       self.sigma = sigma
     return lamopt_values.flatten()
@@ -180,12 +180,9 @@ class NLPAR(nlpar_cpu.NLPAR):
     npat_point = int(pwidth * pheight)
     #print(target_mem)
     chunks = self._calcchunks( [pwidth, pheight], ncols, nrows, target_bytes=target_mem,
-                              col_overlap=1, row_overlap=1)
+                              col_overlap=nn, row_overlap=nn)
 
-    if (automask is True) and (self.mask is None):
-      self.mask = (self.automask(pheight, pwidth))
-    if self.mask is None:
-      self.mask = np.ones((pheight, pwidth), dtype=np.uint8)
+    self._setmask(automask, pheight, pwidth)
 
     #indices = np.asarray((self.mask.flatten().nonzero())[0], np.uint64)
     #nindices = np.uint64(indices.size)
@@ -236,6 +233,8 @@ class NLPAR(nlpar_cpu.NLPAR):
 
         data, xyloc = patternfile.read_data(patStartCount=[[cstart, rstart], [ncolchunk, nrowchunk]],
                                           convertToFloat=False, returnArrayOnly=True)
+        if data.dtype.type not in (np.float32, np.ubyte, np.uint16): # the types that the device loads
+          data = data.astype(np.float32)
 
         mxval = data.max()
         if saturation_protect == False:
@@ -354,13 +353,13 @@ class NLPAR(nlpar_cpu.NLPAR):
       self.sigma = None
 
     if np.asarray(self.sigma).size == 1 and (self.sigma is not None):
-      tmp = np.asarray(self.sigma)[0]
+      tmp = np.asarray(self.sigma).flat[0]
       self.sigma = np.zeros((nrows, ncols), dtype=np.float32) + tmp
       calcsigma = False
 
     if self.sigma is not None:
       shpsigma = np.asarray(self.sigma).shape
-      if (shpsigma[0] != nrows) and (shpsigma[1] != ncols):
+      if (shpsigma[0] != nrows) or (shpsigma[1] != ncols):
         self.sigma = None
 
     if self.sigma is None:
@@ -370,17 +369,14 @@ class NLPAR(nlpar_cpu.NLPAR):
 
 
 
-    if (automask is True) and (self.mask is None):
-      self.mask = (self.automask(pheight, pwidth))
-    if self.mask is None:
-      self.mask = np.ones((pheight, pwidth), dtype=np.uint8)
+    self._setmask(automask, pheight, pwidth)
 
     scalemethod = 'clip'
     self.rescale = False
     if rescale == True:
       self.rescale = True
       if np.issubdtype(patternfileout.filedatatype, np.integer):
-        mxval = np.iinfo(patternfileout.filedatatype).max
+        mxrescale = np.iinfo(patternfileout.filedatatype).max
         scalemethod = 'fullscale'
       else:  # not int, so no rescale.
         self.rescale = False
@@ -511,7 +507,8 @@ class NLPAR(nlpar_cpu.NLPAR):
 
         data, xyloc = patternfile.read_data(patStartCount=[[ cstart, rstart], [ncolchunk, nrowchunk]],
                                           convertToFloat=False, returnArrayOnly=True)
-
+        if data.dtype.type not in (np.float32, np.ubyte, np.uint16): # the types that the device loads
+          data = data.astype(np.float32)
 
         mxval0 = data.max()
         mnval0 = data.min()
@@ -593,7 +590,7 @@ class NLPAR(nlpar_cpu.NLPAR):
               for i in range(data.shape[0]):
                 temp = data[i, :, :]
                 temp -= temp.min()
-                temp *= np.float32(mxval) / temp.max()
+                temp *= np.float32(mxrescale) / temp.max()
                 data[i, :, :] = temp
 
 
diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index dfd0382..171c8eb 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -136,10 +136,7 @@ class NLPAR(nlpar_cl.NLPAR):
     pheight = np.uint64(patternfile.patternH)
     npat_point = int(pwidth * pheight)
 
-    if (automask is True) and (self.mask is None):
-      self.mask = (self.automask(pheight, pwidth))
-    if self.mask is None:
-      self.mask = np.ones((pheight, pwidth), dtype=np.uint8)
+    self._setmask(automask, pheight, pwidth)
 
     mask = self.mask.astype(np.float32)
 
@@ -263,6 +260,8 @@ class NLPAR(nlpar_cl.NLPAR):
     nn = self.sigmann
 
     data = np.ascontiguousarray(data)
+    if data.dtype.type not in (np.float32, np.ubyte, np.uint16): # the types that the device loads
+      data = data.astype(np.float32)
     ctx = clparams.ctx
     prg = clparams.prg
     clparams.get_queue()
@@ -421,13 +420,13 @@ class NLPAR(nlpar_cl.NLPAR):
       self.sigma = None
 
     if np.asarray(self.sigma).size == 1 and (self.sigma is not None):
-      tmp = np.asarray(self.sigma)[0]
+      tmp = np.asarray(self.sigma).flat[0]
       self.sigma = np.zeros((nrows, ncols), dtype=np.float32) + tmp
       calcsigma = False
 
     if self.sigma is not None:
       shpsigma = np.asarray(self.sigma).shape
-      if (shpsigma[0] != nrows) and (shpsigma[1] != ncols):
+      if (shpsigma[0] != nrows) or (shpsigma[1] != ncols):
         self.sigma = None
 
     if self.sigma is None:
@@ -437,10 +436,7 @@ class NLPAR(nlpar_cl.NLPAR):
 
 
 
-    if (automask is True) and (self.mask is None):
-      self.mask = (self.automask(pheight, pwidth))
-    if self.mask is None:
-      self.mask = np.ones((pheight, pwidth), dtype=np.uint8)
+    self._setmask(automask, pheight, pwidth)
 
     scalemethod = 'clip'
     self.rescale = False
@@ -579,6 +575,8 @@ class NLPAR(nlpar_cl.NLPAR):
 
   def _nlparchunkcalc_cl(self, data, calclim, clparams=None):
     data = np.ascontiguousarray(data)
+    if data.dtype.type not in (np.float32, np.ubyte, np.uint16): # the types that the device loads
+      data = data.astype(np.float32)
     ctx = clparams.ctx
     prg = clparams.prg
     clparams.get_queue()
@@ -614,6 +612,9 @@ class NLPAR(nlpar_cl.NLPAR):
 
 
     # precalculate some needed arrays for the GPU
+    mnval = data.min()
+    if mnval < 0:
+      data = data - mnval
     mxval = data.max()
     if self.saturation_protect == False:
       mxval += 1.0
@@ -679,14 +680,17 @@ class NLPAR(nlpar_cl.NLPAR):
     cl.enqueue_copy(clparams.queue, data, datapadout_gpu,  is_blocking=True)
     sigmachunk_gpu.release()
     clparams.queue.finish()
+    data = data[rstartcalc: rstartcalc + nrowcalc, cstartcalc: cstartcalc + ncolcalc, :, :]
+    data = data.reshape(nrowcalc * ncolcalc, pheight, pwidth)
+    if mnval < 0:
+      data += mnval
     if self.rescale == True:
+      mxrescale = np.iinfo(self.patternfileout.filedatatype).max
       for i in range(data.shape[0]):
         temp = data[i, :, :]
         temp -= temp.min()
-        temp *= np.float32(mxval) / temp.max()
+        temp *= np.float32(mxrescale) / temp.max()
         data[i, :, :] = temp
-    data = data[rstartcalc: rstartcalc + nrowcalc, cstartcalc: cstartcalc + ncolcalc, :, :]
-    data = data.reshape(nrowcalc * ncolcalc, pheight, pwidth)
 
     clparams.queue = None
 
-- 
2.43.0


From aec53994cc5797b96ae3e256597d53b1f4cb8220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 88/90] fix: NLPAR tiles of narrow scans left points out

---
 pyebsdindex/nlpar_cpu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 48cfa53..15726dc 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -779,6 +779,8 @@ class NLPAR:
     nchunks = int(np.ceil(byteperdataset / target_bytes))
 
     ncolchunks = (max(np.round(np.sqrt(nchunks * float(ncol) / nrow)), 1))
+    # not more tiles than needed, and none with hardly more than the overlap in it
+    ncolchunks = max(min(ncolchunks, nchunks, ncol // (2 * int(col_overlap) + 1)), 1)
     colstep = max((ncol / ncolchunks), 1)
     ncolchunks = max(ncol / colstep, 1)
     colstepov = min(colstep + 2 * col_overlap, ncol)
@@ -787,6 +789,7 @@ class NLPAR:
     colstepov = min(colstep + 2 * col_overlap, ncol)
 
     nrowchunks = max(np.ceil(nchunks / ncolchunks), 1)
+    nrowchunks = max(min(nrowchunks, nrow // (2 * int(row_overlap) + 1)), 1)
     rowstep = max((nrow / nrowchunks), 1)
     nrowchunks = max(nrow / rowstep, 1)
     rowstepov = min(rowstep + 2 * row_overlap, nrow)
-- 
2.43.0


From e9ce29cc8661a6d3e33709e52ed2eb8ca4639e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 89/90] fix: OpenCL NLPAR never redid a failed tile

---
 pyebsdindex/opencl/nlpar_clray.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index 171c8eb..fbcd1a5 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -250,6 +250,11 @@ class NLPAR(nlpar_cl.NLPAR):
             idlewrker.append(busywrker.pop(indx))
             tasks.remove(tsk)
             ndone += 1
+          else: #An error has occured ... hopefully just need a re-process.
+            idlewrker.append(busywrker.pop(indx))
+            tasks.remove(tsk)
+            jobqueue.append(job)
+            print(message)
           if verbose >= 2:
             print("tiles complete: ", ndone,"/", njobs,sep='', end='\r'  )
     if verbose >= 2:
@@ -566,6 +571,8 @@ class NLPAR(nlpar_cl.NLPAR):
                   if verbose >= 2:
                     print("tiles complete: ", ndone, "/", njobs, sep='', end='\r')
                 else: #An error has occured ... hopefully just need a re-process.
+                  idlewrker.append(busywrker.pop(indx))
+                  tasks.remove(tsk)
                   jobqueue.append(job)
                   print(message)
 
-- 
2.43.0


From b7131ec7b8168cb3f7597d298386e0f4082949fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 90/90] fix: OpenCL NLPAR strength search used cut
 neighborhoods at the edges of tiles

---
 pyebsdindex/opencl/nlpar_cl.py    | 13 ++++++++++---
 pyebsdindex/opencl/nlpar_clray.py | 21 ++++++++++++---------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index 0517c8a..6004645 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -179,8 +179,10 @@ class NLPAR(nlpar_cpu.NLPAR):
     pheight = np.uint64(patternfile.patternH)
     npat_point = int(pwidth * pheight)
     #print(target_mem)
+    # the neighbors within nn need all of their own neighbors for their sigma
+    ov = 2*nn
     chunks = self._calcchunks( [pwidth, pheight], ncols, nrows, target_bytes=target_mem,
-                              col_overlap=nn, row_overlap=nn)
+                              col_overlap=ov, row_overlap=ov)
 
     self._setmask(automask, pheight, pwidth)
 
@@ -286,8 +288,13 @@ class NLPAR(nlpar_cpu.NLPAR):
         #sigmachunk_gpu.release()
 
         queue.finish()
-        countnn[rstart:rend, cstart:cend] = countchunk[0:int(ncolchunk*nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)
-        dist[rstart:rend, cstart:cend] = distchunk[0:int(ncolchunk*nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)
+        # only the points that have all their neighbors in this tile
+        r0, r1 = ov if (rowchunk > 0) else 0, nrowchunk - ov if (rowchunk < (chunks[1] - 1)) else nrowchunk
+        c0, c1 = ov if (colchunk > 0) else 0, ncolchunk - ov if (colchunk < (chunks[0] - 1)) else ncolchunk
+        countchnk = countchunk[0:int(ncolchunk*nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)
+        distchnk = distchunk[0:int(ncolchunk*nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)
+        countnn[rstart+r0:rstart+r1, cstart+c0:cstart+c1] = countchnk[r0:r1, c0:c1]
+        dist[rstart+r0:rstart+r1, cstart+c0:cstart+c1] = distchnk[r0:r1, c0:c1]
         sigma[rstart:rend, cstart:cend] = np.minimum(sigma[rstart:rend, cstart:cend], sigmachunk)
         if verbose >= 2:
           print("tiles complete: ", ndone, "/", nchunks, sep='', end='\r')
diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index fbcd1a5..33d61f1 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -140,8 +140,10 @@ class NLPAR(nlpar_cl.NLPAR):
 
     mask = self.mask.astype(np.float32)
 
+    # the neighbors within nn need all of their own neighbors for their sigma
+    ov = 2*nn
     chunks = self._calcchunks([pwidth, pheight], ncols, nrows, target_bytes=target_mem,
-                              col_overlap=nn, row_overlap=nn)
+                              col_overlap=ov, row_overlap=ov)
 
 
     jobqueue = []
@@ -151,8 +153,8 @@ class NLPAR(nlpar_cl.NLPAR):
       rend = chunks[3][rowchunk, 1]
       nrowchunk = rend - rstart
 
-      rstartcalc = nn if (rowchunk > 0) else 0
-      rendcalc = nrowchunk - nn if (rowchunk < (chunks[1] - 1)) else nrowchunk
+      rstartcalc = ov if (rowchunk > 0) else 0
+      rendcalc = nrowchunk - ov if (rowchunk < (chunks[1] - 1)) else nrowchunk
       nrowcalc = np.int64(rendcalc - rstartcalc)
 
       for colchunk in range(chunks[0]):
@@ -160,8 +162,8 @@ class NLPAR(nlpar_cl.NLPAR):
         cend = chunks[2][colchunk, 1]
         ncolchunk = cend - cstart
 
-        cstartcalc = nn if (colchunk > 0) else 0
-        cendcalc = ncolchunk - nn if (colchunk < (chunks[0] - 1)) else ncolchunk
+        cstartcalc = ov if (colchunk > 0) else 0
+        cendcalc = ncolchunk - ov if (colchunk < (chunks[0] - 1)) else ncolchunk
         ncolcalc = np.int64(cendcalc - cstartcalc)
 
         jobqueue.append(NLPARGPUJob([colchunk, rowchunk], \
@@ -241,10 +243,11 @@ class NLPAR(nlpar_cl.NLPAR):
             nrowcalc = job.nrowcalc
             ncolcalc = job.ncolcalc
 
-            countnn[rstart:rend, cstart:cend] = countchunk[0:int(ncolchunk * nrowchunk), :].reshape(nrowchunk,
-                                                                                        ncolchunk, nnn)
-            dist[rstart:rend, cstart:cend] = distchunk[0:int(ncolchunk * nrowchunk), :].reshape(nrowchunk, ncolchunk,
-                                                                                                nnn)
+            # only the points that have all their neighbors in this tile
+            rc, cc = slice(rstartcalc, rstartcalc+nrowcalc), slice(cstartcalc, cstartcalc+ncolcalc)
+            ro, co = slice(rstart+rstartcalc, rstart+rstartcalc+nrowcalc), slice(cstart+cstartcalc, cstart+cstartcalc+ncolcalc)
+            countnn[ro, co] = countchunk[0:int(ncolchunk * nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)[rc, cc]
+            dist[ro, co] = distchunk[0:int(ncolchunk * nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)[rc, cc]
             sigma[rstart:rend, cstart:cend] = np.minimum(sigma[rstart:rend, cstart:cend], sigmachunk)
 
             idlewrker.append(busywrker.pop(indx))
-- 
2.43.0

