From ebab53e94d129291b41528448ec455524ad8eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 01/52] fix: use the admissible mass-unit name when converting
 masses to and from internal units

---
 cosmic_profiles/common/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/common/config.py b/cosmic_profiles/common/config.py
index 24264c4..0da9c14 100644
--- a/cosmic_profiles/common/config.py
+++ b/cosmic_profiles/common/config.py
@@ -166,7 +166,7 @@ def MassInternalToOut(mass_arr):
     :type mass_arr: floats"""
     global OutUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    int_to_out = np.float32(mass_in_g_d['E+10M_sun/h']/OutUnitMass_in_g)
+    int_to_out = np.float32(mass_in_g_d['E+10Msun/h']/OutUnitMass_in_g)
     return mass_arr*int_to_out
 
 def VelInternalToOut(vel_arr):
@@ -196,7 +196,7 @@ def MassInToInternal(mass_arr):
     :type mass_arr: floats"""
     global InUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10M_sun/h'])
+    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10Msun/h'])
     return mass_arr*in_to_int
 
 def VelInToInternal(vel_arr):
-- 
2.43.0


From 6ba688334da39fe423617a0ff8ab203549c1276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 02/52] fix: do not overwrite the object index catalogue when
 binning ellipsoidal density profiles

---
 cosmic_profiles/dens_profs/dens_profs_algos.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index 987ecf0..2b8b9ae 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -167,7 +167,6 @@ def calcDensProfsEllDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
     cdef double[:,:,:] inter_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     cdef double[:,:,:] minor_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     for p in range(nb_objs):
-        idx_cat.base[offsets[p]:offsets[p+1]] = np.array(idx_cat[p])
         r_vec = np.float64(a.base[p])
         a_inter = interp1d(r_vec, a.base[p], bounds_error=False, fill_value='extrapolate')
         b_inter = interp1d(r_vec, b.base[p], bounds_error=False, fill_value='extrapolate')
-- 
2.43.0


From 38a40100f5258037eb921d449d94a9852cdeb923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 03/52] fix: fill the velocities used for local
 velocity-dispersion shapes

---
 cosmic_profiles/shape_profs/shape_profs_algos.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 88c357e..647d707 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -821,6 +821,9 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
             xyz_obj[openmp.omp_get_thread_num(),n,0] = xyz[idx_cat[offsets[p]+n],0]
             xyz_obj[openmp.omp_get_thread_num(),n,1] = xyz[idx_cat[offsets[p]+n],1]
             xyz_obj[openmp.omp_get_thread_num(),n,2] = xyz[idx_cat[offsets[p]+n],2]
+            vxyz_obj[openmp.omp_get_thread_num(),n,0] = vxyz[idx_cat[offsets[p]+n],0]
+            vxyz_obj[openmp.omp_get_thread_num(),n,1] = vxyz[idx_cat[offsets[p]+n],1]
+            vxyz_obj[openmp.omp_get_thread_num(),n,2] = vxyz[idx_cat[offsets[p]+n],2]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
         xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
-- 
2.43.0


From 607d9393d0a4bab4c95eba994ff6c8dc47ae40e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 04/52] fix: pass getShapeCatVelGlobal's arguments in the order
 its helper expects

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 82aecca..e960c94 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -656,7 +656,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             isValidSelection(obj_numbers, nb_objects)
             subset_idx_cat = getSubSetIdxCat(idx_cat, obj_size, obj_numbers)
             suffix = '_v{}_'.format(self.OBJ_TYPE)
-            d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, self.CENTER, self.SAFE, REDUCED, suffix)
+            d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, REDUCED, suffix)
             del xyz; del velxyz; del masses; del idx_cat; del obj_size
             l_internal, m_internal, vel_internal = config.getLMVInternal()
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
-- 
2.43.0


From 9c25b7a802517dab220ce919408c11b91488d61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 05/52] fix: create output directories where the files are then
 written

---
 cosmic_profiles/common/cosmic_base_class.pyx        |  8 ++++----
 cosmic_profiles/dens_profs/dens_profs_tools.py      |  2 +-
 cosmic_profiles/shape_profs/shape_profs_classes.pyx |  4 ++--
 cosmic_profiles/shape_profs/shape_profs_tools.py    | 10 +++++-----
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index dcb1a96..c2e36b7 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -468,7 +468,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
             np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -522,7 +522,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
             np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -583,7 +583,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
             np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -641,7 +641,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
             np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 8889f1a..ffb5d3e 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -155,7 +155,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         best_fit_dict = getModelParsDict(best_fit, method['profile'])
         del r200
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # Go to outgoing unit system
         l_internal, m_internal, vel_internal = config.getLMVInternal()
diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index e960c94..aafd913 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -165,7 +165,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             del obj_m
                                 
             # Create VIZ_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)])
             
             # Go to outgoing unit system
             d = config.LengthInternalToOut(d)
@@ -260,7 +260,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             del obj_m
         
             # Create VIZ_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)])
             
             # Go to outgoing unit system
             d = config.LengthInternalToOut(d)
diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index bc6b308..4b452c6 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -149,7 +149,7 @@ def getShapeProfs(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         ERROR_METHOD = "median_quantile"
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # Q
         plt.figure()
@@ -278,7 +278,7 @@ def getLocalTHist(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         t = np.nan_to_num(t)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # T counting
         plt.figure()
@@ -333,7 +333,7 @@ def getGlobalTHist(VIZ_DEST, SNAP, start_time, obj_masses, obj_centers, d, q, s,
         t = np.nan_to_num(t)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # T counting
         plt.figure()
@@ -379,7 +379,7 @@ def getGlobalEpsHist(xyz, masses, idx_cat, obj_size, L_BOX, CENTER, VIZ_DEST, SN
     
     if rank == 0:
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         eps = getEpsilon(idx_cat, obj_size, xyz, masses, L_BOX, CENTER)
         plt.figure()
@@ -424,7 +424,7 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
         idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, L_BOX, CENTER, r200, frac_r200)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # Direct fitting result prep, needed for both D and A
         eps = getEpsilon(idx_cat_new, obj_size_new, xyz, masses, L_BOX, CENTER)
-- 
2.43.0


From aaec9881284ead08b1bb30ff911c98d7efbd3e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 06/52] fix: select the particles within a fraction of R200 for
 the local ellipticity histogram

---
 cosmic_profiles/common/python_routines.py        | 8 ++++----
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 2466ef3..e3d946b 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -593,15 +593,15 @@ def getCatWithinFracR200(cat_in, obj_size_in, xyz, masses, L_BOX, CENTER, r200,
     for idx in range(len(obj_size_in)): # Calculate centers of objects
         xyz_ = respectPBCNoRef(xyz[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], L_BOX)
         if CENTER == 'mode':
-            centers.base[idx] = calcMode(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], max((max(xyz_[:,0])-min(xyz_[:,0]), max(xyz_[:,1])-min(xyz_[:,1]), max(xyz_[:,2])-min(xyz_[:,2]))))
+            centers[idx] = calcMode(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], max((max(xyz_[:,0])-min(xyz_[:,0]), max(xyz_[:,1])-min(xyz_[:,1]), max(xyz_[:,2])-min(xyz_[:,2]))))
         else:
-            centers.base[idx] = calcCoM(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]])
+            centers[idx] = calcCoM(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]])
     remnant = []
     for idx in range(len(obj_size_in)):
         obj = cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]
-        xyz_ = respectPBCNoRef(xyz[obj])
+        xyz_ = respectPBCNoRef(xyz[obj], L_BOX)
         tree = cKDTree(xyz_, leafsize=2, balanced_tree = False)
-        all_nn_idxs = tree.query_ball_point(centers[idx], r=r200[idx]*frac_r200, n_jobs=-1)
+        all_nn_idxs = tree.query_ball_point(centers[idx], r=r200[idx]*frac_r200, workers=-1)
         if all_nn_idxs != []:
             cat_out = np.hstack((cat_out, np.array(obj)[all_nn_idxs]))
             obj_size_out[idx] = len(all_nn_idxs)
diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index 4b452c6..9f977ed 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -421,7 +421,7 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
     
     if rank == 0:
         # Update h_cat so that only particles within r200 are considered
-        idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, L_BOX, CENTER, r200, frac_r200)
+        idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, r200, frac_r200)
         
         # Create VIZ_DEST if not available
         subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
-- 
2.43.0


From 795612f31a0568fb6462cc28c05d595eb54c35a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 07/52] fix: find blocks by name in Gadget II snapshots

---
 cosmic_profiles/gadget/readsnap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 5575124..40e66a3 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -118,7 +118,7 @@ def find_block(filename, format, swap, block, block_num, only_list_blocks=False)
     if format==2:
       f.seek(4, os.SEEK_CUR)
       curblock = f.read(4)
-      if (block == curblock):
+      if (block == curblock.decode('latin-1')):
         found = True
       f.seek(8, os.SEEK_CUR)  
     else:
-- 
2.43.0


From 0beb434d12c1730e24061a2866387f0c5eca8494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 08/52] fix: read multi-file HDF5 snapshots in which a file has
 no particles of the requested type

---
 cosmic_profiles/gadget/readgadget.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 56dceca..7b3d8f4 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -106,7 +106,10 @@ def read_field(snapshot, block, ptype):
         prefix = 'PartType%d/'%ptype
         f = h5py.File(filename, 'r')
         
-        if '%s%s'%(prefix,suffix) not in f:
+        if Npart[ptype] == 0: # No particles of this type in this subfile, hence no datasets either
+            dtypes = {"POS ": np.dtype((np.float64,3)), "VEL ": np.dtype((np.float64,3)), "MASS": np.float64, "ID  ": np.uint64}
+            array = np.zeros(0, dtype=dtypes[block])
+        elif '%s%s'%(prefix,suffix) not in f:
             if Masses[ptype] != 0.0:
                 array = np.ones(Npart[ptype], np.float64)*Masses[ptype]/unit_fac
             else:
-- 
2.43.0


From ab258d4f2e8959e776e363858a93fe031519ad85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 09/52] fix: never substitute the header's particle mass for a
 missing block other than the masses

---
 cosmic_profiles/gadget/readgadget.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 7b3d8f4..f1b2f15 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -110,7 +110,7 @@ def read_field(snapshot, block, ptype):
             dtypes = {"POS ": np.dtype((np.float64,3)), "VEL ": np.dtype((np.float64,3)), "MASS": np.float64, "ID  ": np.uint64}
             array = np.zeros(0, dtype=dtypes[block])
         elif '%s%s'%(prefix,suffix) not in f:
-            if Masses[ptype] != 0.0:
+            if block=="MASS" and Masses[ptype] != 0.0:
                 array = np.ones(Npart[ptype], np.float64)*Masses[ptype]/unit_fac
             else:
                 raise Exception('Problem reading the block %s'%block)
-- 
2.43.0


From 2d7491441b00b4d9c71f0aec62868211b5e1bb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 10/52] fix: read particle IDs as the integers they are

---
 cosmic_profiles/gadget/readgadget.py | 10 +++++++---
 cosmic_profiles/gadget/readsnap.py   |  1 +
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index f1b2f15..786807f 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -100,7 +100,8 @@ def read_field(snapshot, block, ptype):
         raise Exception('block not implemented in readgadget!')
 
     if fformat=="binary":
-        array = readsnap.read_block(filename, block, parttype=ptype)/unit_fac
+        array = readsnap.read_block(filename, block, parttype=ptype)
+        if block!="ID  ":  array = array/unit_fac # IDs are integers and carry no unit
         return array
     else:
         prefix = 'PartType%d/'%ptype
@@ -115,7 +116,8 @@ def read_field(snapshot, block, ptype):
             else:
                 raise Exception('Problem reading the block %s'%block)
         else:
-            array = f[prefix+suffix][:]/unit_fac
+            array = f[prefix+suffix][:]
+            if block!="ID  ":  array = array/unit_fac # IDs are integers and carry no unit
         f.close()
 
         if block=="VEL ":  array *= np.sqrt(head.time) # To make sure we move from UnitVelocity a**0.5 to UnitVelocity
@@ -169,7 +171,9 @@ def read_block(snapshot, block, ptype, verbose=False):
 
         # Format I or format II Gadget files
         if fformat=="binary":
-            array[offset:offset+Nall[pt]] = readsnap.read_block(snapshot, block, pt, verbose=verbose)/unit_fac
+            data = readsnap.read_block(snapshot, block, pt, verbose=verbose)
+            if block!="ID  ":  data = data/unit_fac # IDs are integers and carry no unit
+            array[offset:offset+Nall[pt]] = data
             offset += Nall[pt]
 
         # Single files (either binary or hdf5)
diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 40e66a3..f4b9c41 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -355,6 +355,7 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
       if block=="ID  ":
         if blocksize == np.dtype(dt).itemsize*curpartnum * 2:
           dt = np.uint64 
+          data = data.astype(dt)
         
     if np.dtype(dt).itemsize*curpartnum != blocksize:
       print("something wrong with blocksize! expected =",np.dtype(dt).itemsize*curpartnum,"actual =",blocksize)
-- 
2.43.0


From 6acea2d0142895196b68bf3a0cba61bebbf28de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 11/52] fix: do not reuse group radii cached under another unit
 system

---
 cosmic_profiles/gadget/read_fof.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 5fb7510..0b8faae 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -42,7 +42,7 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         fof_sizes (size of each FoF-halo), group_r200 (R200 radius of each FoF-halo
         in units of cMpc/h)
     :rtype: double and int arrays"""
-    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
+    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target):
         fof_sizes = np.empty(0, dtype = np.int32)
         nb_shs = np.empty(0, dtype = np.int32)
         sh_len = np.empty(0, dtype = np.int32)
@@ -62,8 +62,6 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
             last = rank == nb_jobs_to_do - 1
         count_fof = 0
         count_sh = 0
-        l_internal, m_internal, vel_internal = config.getLMVInternal()
-        l_curr_over_target = config.InUnitLength_in_cm/l_internal
         for snap_run in range(rank*perrank, rank*perrank+do_sth*(perrank+last*(nb_jobs_to_do-(rank+1)*perrank))):
             g = h5py.File(r'{}'.format(hdf5GroupFilenamesList[snap_run]), 'r')
             if 'Group/GroupLenType' in g:
@@ -134,5 +132,8 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         return nb_shs, sh_len, fof_sizes, np.float64(group_r200)
     if(not hasattr(getFoFSHData, "inner")):
         getFoFSHData.inner = np_cache_factory(0,0)(inner)
-    getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE)
-    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE)
\ No newline at end of file
+    # The unit system is part of the cache key: it may change between calls
+    l_internal, m_internal, vel_internal = config.getLMVInternal()
+    l_curr_over_target = config.InUnitLength_in_cm/l_internal
+    getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target)
+    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target)
\ No newline at end of file
-- 
2.43.0


From f0053ff7372241c9778b6cc2df1a944cfd8f0691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 12/52] fix: keep shape axes that are aligned with a coordinate
 axis

---
 .../shape_profs/shape_profs_algos.pyx         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 647d707..29ec939 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -619,9 +619,9 @@ def calcMorphLocal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(q.base)] = np.nan
+    inter[np.isnan(q.base)] = np.nan
+    major[np.isnan(q.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -727,9 +727,9 @@ def calcMorphGlobal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] id
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(q.base)] = np.nan
+    inter[np.isnan(q.base)] = np.nan
+    major[np.isnan(q.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -850,9 +850,9 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(q.base)] = np.nan
+    inter[np.isnan(q.base)] = np.nan
+    major[np.isnan(q.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -966,9 +966,9 @@ def calcMorphGlobalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses,
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(q.base)] = np.nan
+    inter[np.isnan(q.base)] = np.nan
+    major[np.isnan(q.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
-- 
2.43.0


From 943206ab159715e7dc483fae6515cd7005dfed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 13/52] fix: translate particles across the periodic boundary
 towards their object's centre

---
 cosmic_profiles/common/python_routines.py     |  4 ++-
 .../cython_helpers/helper_class.pxd           |  2 +-
 .../cython_helpers/helper_class.pyx           | 26 ++++++++-----------
 .../dens_profs/dens_profs_algos.pyx           |  6 ++---
 .../shape_profs/shape_profs_algos.pyx         |  8 +++---
 5 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index e3d946b..ffed2d2 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -513,7 +513,9 @@ def respectPBCNoRef(xyz, L_BOX = None):
         xyz_out = xyz.copy() # Otherwise changes would be reflected in outer scope (np.array is mutable).
         rng = default_rng(seed=0) # Reference particle does not matter, i.e. ref = 0 is an option, but it is better to average over some random particles
         choose = rng.choice(np.arange(len(xyz)), (min(50,len(xyz)),), replace = False)
-        ref_xyz = np.average(xyz_out[choose], axis = 0)
+        ref_xyz = xyz_out[choose]
+        ref_xyz = ref_xyz-L_BOX*np.rint((ref_xyz-ref_xyz[0])/L_BOX) # Bring sample to the same side of the box before averaging
+        ref_xyz = np.average(ref_xyz, axis = 0)
         dist_x = xyz_out[:,0]-ref_xyz[0]
         dist_y = xyz_out[:,1]-ref_xyz[1]
         dist_z = xyz_out[:,2]-ref_xyz[2]
diff --git a/cosmic_profiles/cython_helpers/helper_class.pxd b/cosmic_profiles/cython_helpers/helper_class.pxd
index a55c64d..330f723 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pxd
+++ b/cosmic_profiles/cython_helpers/helper_class.pxd
@@ -20,7 +20,7 @@ cdef class CythonHelpers:
     cdef void ZHEEVR(complex[::1,:] H, double * eigvals, complex[::1,:] Z, int nrows) nogil
 
     @staticmethod
-    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, float L_BOX) nogil
+    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, double[:] center, double L_BOX) nogil
     
     @staticmethod
     cdef double[:] calcDensProfBruteForceSph(double[:,:] xyz, double[:] masses, double[:] center, float r_200, double[:] ROverR200, double[:] dens_prof, int[:] shell) nogil
diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index 99bf90f..12962b0 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -166,15 +166,17 @@ cdef class CythonHelpers:
     @cython.boundscheck(False)
     @cython.wraparound(False) 
     @staticmethod
-    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, float L_BOX) nogil:
+    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, double[:] center, double L_BOX) nogil:
         """
         Modify xyz inplace so that it respects the box periodicity.
         
         If point distro xyz has particles separated in any Cartesian direction
-        by more than L_BOX/2, reflect those particles along L_BOX/2
+        by more than L_BOX/2 from the center, translate those particles by L_BOX
         
         :param xyz: coordinates of particles of type 1 or type 4
         :type xyz: (N^3x3) floats
+        :param center: center of the object that the particles belong to
+        :type center: (3,) floats
         :param L_BOX: periodicity of box (0.0 if non-periodic)
         :type L_BOX: float
         :return: updated coordinates of particles of type 1 or type 4
@@ -182,20 +184,14 @@ cdef class CythonHelpers:
         
         if L_BOX == 0.0:
             return xyz
-        cdef int ref = 0
-        cdef float dist_x
-        cdef float dist_y
-        cdef float dist_z
+        cdef int i
+        cdef int dim
         for i in range(xyz.shape[0]):
-            dist_x = CythonHelpers.cython_abs(xyz[ref, 0]-xyz[i,0])
-            if dist_x > L_BOX/2:
-                xyz[i,0] = L_BOX-xyz[i,0] # Reflect x-distances along L_BOX/2
-            dist_y = CythonHelpers.cython_abs(xyz[ref, 1]-xyz[i,1])
-            if dist_y > L_BOX/2:
-                xyz[i,1] = L_BOX-xyz[i,1] # Reflect y-distances along L_BOX/2
-            dist_z = CythonHelpers.cython_abs(xyz[ref, 1]-xyz[i,1])
-            if dist_z > L_BOX/2:
-                xyz[i,2] = L_BOX-xyz[i,2] # Reflect z-distances along L_BOX/2
+            for dim in range(3):
+                if xyz[i,dim]-center[dim] > L_BOX/2:
+                    xyz[i,dim] = xyz[i,dim]-L_BOX
+                elif xyz[i,dim]-center[dim] < -L_BOX/2:
+                    xyz[i,dim] = xyz[i,dim]+L_BOX
         return xyz
     
     @cython.boundscheck(False)
diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index 2b8b9ae..c96f612 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -103,7 +103,7 @@ def calcDensProfsSphDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
         for n in range(obj_size[p]):
             xyz_obj[openmp.omp_get_thread_num(),n] = xyz[idx_cat[offsets[p]+n]]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         dens_profs[p] = CythonHelpers.calcDensProfBruteForceSph(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], r200s[p], bin_edges_tiled[openmp.omp_get_thread_num()], dens_profs[p], shell[openmp.omp_get_thread_num()])
     del bin_edges; del obj_size; del idx_cat; del shell; del bin_edges_tiled; del xyz_obj; del m_obj; del centers
     return dens_profs.base
@@ -210,7 +210,7 @@ def calcDensProfsEllDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
         for n in range(obj_size[p]):
             xyz_obj[openmp.omp_get_thread_num(),n] = xyz[idx_cat[offsets[p]+n]]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         dens_profs[p] = CythonHelpers.calcDensProfBruteForceEll(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], xyz_obj_princ[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], r200s[p], a_interpol[p], b_interpol[p], c_interpol[p], major_interpol[p], inter_interpol[p], minor_interpol[p], dens_profs[p], shell[openmp.omp_get_thread_num()])
     del bin_edges; del obj_size; del idx_cat; del shell; del xyz_obj; del m_obj; del centers
     del a_interpol; del b_interpol; del c_interpol; del major_interpol; del inter_interpol; del minor_interpol; del xyz_obj_princ; del a; del b; del c; del major; del inter; del minor
@@ -269,7 +269,7 @@ def calcDensProfsKernelBased(double[:,:] xyz, double[:] masses, double[:] r200s,
         for n in range(obj_size[p]):
             xyz_obj[n] = xyz[idx_cat[offsets[p]+n]]
             m_obj[n] = masses[idx_cat[offsets[p]+n]]
-        xyz_obj[:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[:obj_size[p]], L_BOX)
+        xyz_obj[:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[:obj_size[p]], centers[p], L_BOX)
         dists = np.linalg.norm(xyz_obj.base[:obj_size[p]]-centers.base[p], axis = 1)
         hs = 0.005*r200s[p]*(dists.base/(0.1*r200s[p]))**(0.5)
         for r_idx in prange(r_res, schedule = 'dynamic', nogil = True):
diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 29ec939..eee4c18 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -596,7 +596,7 @@ def calcMorphLocal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx
             xyz_obj[openmp.omp_get_thread_num(),n,2] = xyz[idx_cat[offsets[p]+n],2]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         morph_info[openmp.omp_get_thread_num(),:,:] = calcObjMorphLocal(morph_info[openmp.omp_get_thread_num(),:,:], r200[p], r_over_r200_tiled[openmp.omp_get_thread_num()], xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], xyz_princ[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], shell[openmp.omp_get_thread_num()], r_ell[openmp.omp_get_thread_num()], centers[p], shape_tensor[:,:,openmp.omp_get_thread_num()], eigval[:,openmp.omp_get_thread_num()], eigvec[:,:,openmp.omp_get_thread_num()], IT_TOL, IT_WALL, IT_MIN, reduced, shell_based)
         d[p] = morph_info[openmp.omp_get_thread_num(),0]
         q[p] = morph_info[openmp.omp_get_thread_num(),1]
@@ -704,7 +704,7 @@ def calcMorphGlobal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] id
             xyz_obj[openmp.omp_get_thread_num(),n] = xyz[idx_cat[offsets[p]+n]]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         morph_info[openmp.omp_get_thread_num(),:] = calcObjMorphGlobal(morph_info[openmp.omp_get_thread_num(),:], r200[p], xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], xyz_princ[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], ellipsoid[openmp.omp_get_thread_num()], r_ell[openmp.omp_get_thread_num()], centers[p], shape_tensor[:,:,openmp.omp_get_thread_num()], eigval[:,openmp.omp_get_thread_num()], eigvec[:,:,openmp.omp_get_thread_num()], IT_TOL, IT_WALL, IT_MIN, SAFE, reduced)
         d[p] = morph_info[openmp.omp_get_thread_num(),0]
         q[p] = morph_info[openmp.omp_get_thread_num(),1]
@@ -826,7 +826,7 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
             vxyz_obj[openmp.omp_get_thread_num(),n,2] = vxyz[idx_cat[offsets[p]+n],2]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         vcenters[p] = CythonHelpers.calcCoM(vxyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], vcenters[p])
         morph_info[openmp.omp_get_thread_num(),:,:] = calcObjMorphLocalVelDisp(morph_info[openmp.omp_get_thread_num(),:,:], r200[p], r_over_r200_tiled[openmp.omp_get_thread_num()], xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], vxyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], xyz_princ[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], shell[openmp.omp_get_thread_num()], r_ell[openmp.omp_get_thread_num()], centers[p], vcenters[p], shape_tensor[:,:,openmp.omp_get_thread_num()], eigval[:,openmp.omp_get_thread_num()], eigvec[:,:,openmp.omp_get_thread_num()], IT_TOL, IT_WALL, IT_MIN, reduced, shell_based)
         d[p] = morph_info[openmp.omp_get_thread_num(),0]
@@ -942,7 +942,7 @@ def calcMorphGlobalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses,
             vxyz_obj[openmp.omp_get_thread_num(),n] = vxyz[idx_cat[offsets[p]+n]]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         vcenters[p] = CythonHelpers.calcCoM(vxyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], vcenters[p])
         morph_info[openmp.omp_get_thread_num(),:] = calcObjMorphGlobalVelDisp(morph_info[openmp.omp_get_thread_num(),:], r200[p], xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], vxyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], xyz_princ[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], ellipsoid[openmp.omp_get_thread_num()], r_ell[openmp.omp_get_thread_num()], centers[p], vcenters[p], shape_tensor[:,:,openmp.omp_get_thread_num()], eigval[:,openmp.omp_get_thread_num()], eigvec[:,:,openmp.omp_get_thread_num()], IT_TOL, IT_WALL, IT_MIN, SAFE, reduced)
         d[p] = morph_info[openmp.omp_get_thread_num(),0]
-- 
2.43.0


From e6fc8b50eab1cf43e904bfe4811ebb7fd6561071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 14/52] fix: respect periodic boundaries by translating, not
 reflecting, in respectPBC

---
 cosmic_profiles/common/cosmo_tools.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cosmic_profiles/common/cosmo_tools.py b/cosmic_profiles/common/cosmo_tools.py
index c7e9524..9f21fb2 100644
--- a/cosmic_profiles/common/cosmo_tools.py
+++ b/cosmic_profiles/common/cosmo_tools.py
@@ -38,7 +38,7 @@ def respectPBC(xyz, L_BOX):
     Return positions xyz that respect the box periodicity
     
     If point distro xyz has particles separated in any Cartesian direction
-    by more than L_BOX/2, reflect those particles along L_BOX/2
+    by more than L_BOX/2, translate those particles by L_BOX
     
     :param xyz: coordinates of particles of type 1 or type 4
     :type xyz: (N,3) floats
@@ -48,12 +48,12 @@ def respectPBC(xyz, L_BOX):
     :rtype: (N,3) floats"""
     xyz_out = xyz.copy() # Otherwise changes would be reflected in outer scope (np.array is mutable).
     ref = 0 # Reference particle does not matter
-    dist_x = abs(xyz_out[ref, 0]-xyz_out[:,0])
-    xyz_out[:,0][dist_x > L_BOX/2] = L_BOX-xyz_out[:,0][dist_x > L_BOX/2] # Reflect x-xyz_outition along L_BOX/2
-    dist_y = abs(xyz_out[ref, 1]-xyz_out[:,1])
-    xyz_out[:,1][dist_y > L_BOX/2] = L_BOX-xyz_out[:,1][dist_y > L_BOX/2] # Reflect y-xyz_outition along L_BOX/2
-    dist_z = abs(xyz_out[ref, 2]-xyz_out[:,2])
-    xyz_out[:,2][dist_z > L_BOX/2] = L_BOX-xyz_out[:,2][dist_z > L_BOX/2] # Reflect z-xyz_outition along L_BOX/2
+    dist_x = xyz_out[:,0]-xyz_out[ref, 0]
+    xyz_out[:,0] = xyz_out[:,0]-L_BOX*(dist_x > L_BOX/2)+L_BOX*(dist_x < -L_BOX/2) # Translate x-positions by L_BOX
+    dist_y = xyz_out[:,1]-xyz_out[ref, 1]
+    xyz_out[:,1] = xyz_out[:,1]-L_BOX*(dist_y > L_BOX/2)+L_BOX*(dist_y < -L_BOX/2) # Translate y-positions by L_BOX
+    dist_z = xyz_out[:,2]-xyz_out[ref, 2]
+    xyz_out[:,2] = xyz_out[:,2]-L_BOX*(dist_z > L_BOX/2)+L_BOX*(dist_z < -L_BOX/2) # Translate z-positions by L_BOX
     return xyz_out
     
 def chiSquareToIMultiDim(x, y):  
-- 
2.43.0


From f4c1902bea771968afb21b28eaa5d898c1e0bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 15/52] fix: reject non-integer object selections given as
 lists

---
 cosmic_profiles/common/cosmic_base_class.pyx  | 12 +++----
 cosmic_profiles/common/python_routines.py     | 14 ++++++++
 .../dens_profs/dens_profs_classes.pyx         |  6 ++--
 .../shape_profs/shape_profs_classes.pyx       | 32 +++++++++----------
 4 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index c2e36b7..2f73c2e 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -4,7 +4,7 @@
 
 import numpy as np
 cimport cython
-from cosmic_profiles.common.python_routines import print_status, isValidSelection, getSubSetIdxCat
+from cosmic_profiles.common.python_routines import print_status, isValidSelection, selectionToArray, getSubSetIdxCat
 from cosmic_profiles.common import config
 from cosmic_profiles.shape_profs.shape_profs_tools import getLocalTHist, getGlobalTHist, getShapeProfs
 from cosmic_profiles.dens_profs.dens_profs_tools import fitDensProfHelper, drawDensProfs
@@ -932,7 +932,7 @@ cdef class CosmicBase:
         :rtype: (N2, r_res) floats"""
         print_status(rank,self.start_time,'Starting {} estDensProfs() with snap {}'.format('direct binning' if direct_binning == True else 'kernel based', self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -976,7 +976,7 @@ cdef class CosmicBase:
         :rtype: (N2, r_res) floats"""
         print_status(rank,self.start_time,'Starting {} estDensProfs() with snap {}'.format('direct binning' if direct_binning == True else 'kernel based', self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -1020,7 +1020,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `fitDensProfs()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
@@ -1066,7 +1066,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `estConcentrations()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
@@ -1110,7 +1110,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `plotDensProfs()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index ffed2d2..139ad6c 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -610,6 +610,20 @@ def getCatWithinFracR200(cat_in, obj_size_in, xyz, masses, L_BOX, CENTER, r200,
             remnant.append(idx)            
     return cat_out, obj_size_out[remnant]
 
+def selectionToArray(obj_numbers):
+    """ Convert list of object indices to integer array
+    
+    :param obj_numbers: list of object indices of interest
+    :type obj_numbers: list of int
+    :return: object indices
+    :rtype: (N,) integers
+    :raises: ``ValueError`` if selection of objects contains non-integers"""
+    obj_numbers = np.array(obj_numbers)
+    # Check for non-integers, which would be lost in the conversion
+    if len(np.where(obj_numbers != obj_numbers.round())[0]) != 0:
+        raise ValueError("Please supply integers only for your object selection!")
+    return np.int32(obj_numbers)
+
 def isValidSelection(obj_numbers, nb_objects):
     """ Trivial function to check whether selection of objects is valid
     
diff --git a/cosmic_profiles/dens_profs/dens_profs_classes.pyx b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
index 8f78968..f15988a 100644
--- a/cosmic_profiles/dens_profs/dens_profs_classes.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
@@ -5,7 +5,7 @@
 import numpy as np
 from cosmic_profiles.common.cosmic_base_class cimport CosmicBase
 from cosmic_profiles.common import config
-from cosmic_profiles.common.python_routines import print_status, isValidSelection, getSubSetIdxCat, checkKatzConfig, default_katz_config, checkDensFitMethod
+from cosmic_profiles.common.python_routines import print_status, isValidSelection, selectionToArray, getSubSetIdxCat, checkKatzConfig, default_katz_config, checkDensFitMethod
 from cosmic_profiles.gadget.read_fof import getFoFSHData, getPartType
 from cosmic_profiles.gadget.gen_catalogues import calcObjCat
 from cosmic_profiles.gadget import readgadget
@@ -103,7 +103,7 @@ cdef class DensProfsBase(CosmicBase):
         :return centers, m: centers in config.OutUnitLength_in_cm and masses in config.OutUnitMass_in_g
         :rtype: structured array, containing (N,3) and (N,) floats"""
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         if rank == 0:
             idx_cat_len = len(self.obj_size.base)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -128,7 +128,7 @@ cdef class DensProfsBase(CosmicBase):
         :return centers, m: centers in Mpc/h (internal length units) and masses in 10^10*M_sun*h^2/(Mpc)**3
         :rtype: (N,3) and (N,) floats"""
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         if rank == 0:
             idx_cat_len = len(self.obj_size.base)
             isValidSelection(obj_numbers, idx_cat_len)
diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index aafd913..6450f59 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -16,7 +16,7 @@ import subprocess
 import os
 currentdir = os.path.dirname(os.path.abspath(inspect.getfile(inspect.currentframe())))
 from cosmic_profiles.dens_profs.dens_profs_classes cimport DensProfsBase
-from cosmic_profiles.common.python_routines import print_status, set_axes_equal, fibonacci_ellipsoid, respectPBCNoRef, isValidSelection, getSubSetIdxCat, checkKatzConfig, default_katz_config
+from cosmic_profiles.common.python_routines import print_status, set_axes_equal, fibonacci_ellipsoid, respectPBCNoRef, isValidSelection, selectionToArray, getSubSetIdxCat, checkKatzConfig, default_katz_config
 from cosmic_profiles.common import config
 from cosmic_profiles.shape_profs.shape_profs_tools import getGlobalEpsHist, getLocalEpsHist
 from cosmic_profiles.gadget.read_fof import getFoFSHData, getPartType
@@ -86,7 +86,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         print_status(rank,self.start_time,'Starting getShapeCatLocal() with snap {0}'.format(self.SNAP))
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -121,7 +121,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             3 x (number_of_objs, 3) double arrays"""
         print_status(rank,self.start_time,'Starting getShapeCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -153,7 +153,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting vizLocalShapes() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         D_BINS = ROverR200.shape[0]-1
         if rank == 0:
@@ -249,7 +249,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting vizGlobalShapes() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -325,7 +325,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type obj_numbers: list of int"""
         print_status(rank,self.start_time,'Starting plotGlobalEpsHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -343,7 +343,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type obj_numbers: list of int"""
         print_status(rank,self.start_time,'Starting plotLocalEpsHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -363,7 +363,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotLocalTHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -384,7 +384,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotGlobalTHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -403,7 +403,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotShapeProfs() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -420,7 +420,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeCatLocal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -437,7 +437,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -607,7 +607,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         velxyz = self._getVelXYZ()
         idx_cat, obj_size = self.getIdxCat()
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(obj_size)
@@ -649,7 +649,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         velxyz = self._getVelXYZ()
         idx_cat, obj_size = self.getIdxCat()
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(obj_size)
@@ -684,7 +684,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeVelCatLocal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         xyz, masses = self._getXYZMasses()
         idx_cat, obj_size = self.getIdxCat()
@@ -710,7 +710,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeVelCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToArray(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         xyz, masses = self._getXYZMasses()
         idx_cat, obj_size = self.getIdxCat()
-- 
2.43.0


From e7d777cd0d1d70d76a312d4a9c421a298bd8e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 16/52] fix: do not drop objects with an unclassified radius
 elsewhere from the local triaxiality histogram

---
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index 9f977ed..1b55c29 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -270,7 +270,7 @@ def getLocalTHist(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
     if rank == 0:
         idx = np.zeros((d.shape[0],), dtype = np.int32)
         for obj in range(idx.shape[0]):
-            idx[obj] = np.argmin(abs(d[obj] - r200[obj]*frac_r200))        
+            idx[obj] = np.argmin(abs(r_over_r200 - frac_r200)) # Not via d[obj], which is np.nan at unclassified radii
         
         t = np.zeros((d.shape[0],))
         for obj in range(d.shape[0]):
-- 
2.43.0


From c4929eb1ee4c6f0cd6e4c2f8de27f64cde327212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 17/52] fix: include the objects at the edges of a mass bin in
 its density profile

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index ffb5d3e..b93ce08 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -131,9 +131,9 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         
         # Mass splitting
         max_min_m, obj_m_groups, obj_center_groups, idx_groups = M_split(MASS_UNIT*obj_masses, obj_centers, start_time, NB_BINS = nb_bins)
-        del obj_centers; del obj_center_groups; del idx_groups
+        del obj_centers; del obj_center_groups
         print_status(rank, start_time, "The number of objects considered is {0}".format(r200s.shape[0]))
-        print_status(rank, start_time, "The mass bins (except maybe last) have size {0}".format(np.sum(np.int32([1 if (obj_masses[i]*MASS_UNIT > max_min_m[0] and obj_masses[i]*MASS_UNIT < max_min_m[1]) else 0 for i in range(r200s.shape[0])]))))
+        print_status(rank, start_time, "The mass bins (except maybe last) have size {0}".format(len(obj_m_groups[0])))
         print_status(rank, start_time, "The number of mass bins is {0}".format(len(obj_m_groups)))
         prof_models = {'einasto': getEinastoProf, 'alpha_beta_gamma': getAlphaBetaGammaProf, 'nfw': getNFWProf, 'hernquist': getHernquistProf}
         model_name = {'einasto': 'Einasto', 'alpha_beta_gamma': r'\alpha \beta \gamma', 'nfw': 'NFW', 'hernquist': 'Hernquist'}
@@ -186,7 +186,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         plt.savefig("{}/RhoProf_{}.pdf".format(VIZ_DEST, SNAP), bbox_inches="tight")
         
         for group in range(len(obj_m_groups)):
-            obj_pass_m = np.int32([1 if (obj_masses[i]*MASS_UNIT > max_min_m[group] and obj_masses[i]*MASS_UNIT < max_min_m[group+1]) else 0 for i in range(r200s.shape[0])])
+            obj_pass_m = np.int32([1 if i in idx_groups[group] else 0 for i in range(r200s.shape[0])])
             # Find profile median
             y = [list(dens_profs[np.nonzero(obj_pass_m > 0)[0],i]) for i in range(ROverR200.shape[0])]
             prof_median = np.array([np.median(z) if z != [] else np.nan for z in y])
-- 
2.43.0


From eadb10c4c037a55c94f810c5fe851dac0d0da605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 18/52] fix: allow the default of a single sample on a
 Fibonacci sphere or ellipsoid

---
 cosmic_profiles/common/python_routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 139ad6c..44b1204 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -272,7 +272,7 @@ def fibonacci_sphere(samples=1):
     phi = math.pi * (3. - math.sqrt(5.))  # golden angle in radians
 
     for i in range(samples):
-        y = 1 - (i / float(samples - 1)) * 2  # y goes from 1 to -1
+        y = 1 - (i / float(max(samples - 1, 1))) * 2  # y goes from 1 to -1
         radius = math.sqrt(1 - y * y)  # radius at y
 
         theta = phi * i  # golden angle increment
@@ -326,7 +326,7 @@ def fibonacci_ellipsoid(a, b, c, samples=1):
     phi = math.pi * (3. - math.sqrt(5.))  # golden angle in radians
 
     for i in range(samples):
-        y = 1 - (i / float(samples - 1)) * 2  # y goes from 1 to -1
+        y = 1 - (i / float(max(samples - 1, 1))) * 2  # y goes from 1 to -1
         radius = math.sqrt(1 - y * y)  # radius at y
 
         theta = phi * i  # golden angle increment
-- 
2.43.0


From ba00239d4216f16b948a80abe78b5ffa0e71af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 19/52] fix: count objects, not particle indices, in getObjInfo
 of Gadget objects

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 6450f59..2468f6e 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -841,7 +841,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         print_status(rank, self.start_time, "The total number of objects is {0}".format(len(nb_shs)))
         print_status(rank, self.start_time, "The total number of SHs (subhalos) is {0}".format(len(sh_len)))
         print_status(rank, self.start_time, "The number of objects that have no SH is {0}".format(nb_shs[nb_shs == 0].shape[0]))
-        print_status(rank, self.start_time, "The total number of objects (central subhalos) that have sufficient resolution is {0}".format(len([x for x in self.idx_cat.base if x != []])))
+        print_status(rank, self.start_time, "The total number of objects (central subhalos) that have sufficient resolution is {0}".format(len(self.obj_size.base)))
         del nb_shs; del sh_len; del fof_sizes; del group_r200
         
     def getHeader(self): # Header
-- 
2.43.0


From ff84767f9293b4567aacf2ed932b0d7302cd13bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 20/52] fix: keep rho_s fixed during density profile fitting if
 provided

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index b93ce08..19d421d 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -262,6 +262,12 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
     R_to_min = R_to_min[~np.isnan(median)] # Note: np.isnan returns a boolean
     median = median[~np.isnan(median)]
     # Set initial guess and minimize scalar function
+    if 'rho_s' in method:
+        rho_s_lbound = method['rho_s']/np.average(median) # The rescaled median is fitted
+        rho_s_rbound = rho_s_lbound
+    else:
+        rho_s_lbound = 1e-7
+        rho_s_rbound = np.inf
     try:
         if method['profile'] == 'einasto':
             if 'alpha' in method:
@@ -277,7 +283,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 0.18, r200/5]) # Note: alpha = 0.18 gives ~ NFW
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
+            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
             best_fit = res.x
         elif method['profile'] == 'alpha_beta_gamma':
             if 'alpha' in method:
@@ -305,7 +311,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 1.0, 1.0, 1.0, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
+            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
             best_fit = res.x
         else:
             if 'r_s' in method:
@@ -315,7 +321,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
+            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
             best_fit = res.x
         best_fit[0] *= np.average(median)
     except ValueError: # For poor density profiles one might encounter "ValueError: `x0` violates bound constraints."
-- 
2.43.0


From bb987aa2b7806abe44d0fba137379d837f1e9f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 21/52] fix: interpret fixed rho_s and r_s in the units in
 which fits are returned

---
 cosmic_profiles/common/cosmic_base_class.pyx | 21 ++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index 2f73c2e..c7c538a 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -998,6 +998,24 @@ cdef class CosmicBase:
         else:
             return None
         
+    def _methodOutToInternal(self, dict method):
+        """ Convert the model parameters to be kept fixed during fitting to internal units
+        
+        :param method: describes density profile model assumed for fitting, with ``rho_s`` (if provided) in units of 
+            config.OutUnitMass_in_g/config.OutUnitLength_in_cm**3 and ``r_s`` (if provided) in config.OutUnitLength_in_cm
+        :type method: dictionary, method['profile'] is either `einasto`, `alpha_beta_gamma`, `hernquist`, `nfw`, minimum requirement
+        :return: ``method`` with ``rho_s`` in M_sun*h^2/(Mpc)**3 and ``r_s`` in Mpc/h
+        :rtype: dictionary"""
+        l_internal, m_internal, vel_internal = config.getLMVInternal()
+        l_curr_over_target = config.OutUnitLength_in_cm/l_internal
+        m_curr_over_target = config.OutUnitMass_in_g/(m_internal/self.MASS_UNIT)
+        method = method.copy()
+        if 'rho_s' in method:
+            method['rho_s'] = method['rho_s']*m_curr_over_target*l_curr_over_target**(-3)
+        if 'r_s' in method:
+            method['r_s'] = method['r_s']*l_curr_over_target
+        return method
+        
     def _fitDensProfsBase(self, double[:] r200, int[:] obj_size, double[:,:] dens_profs, double[:] r_over_r200, dict method, obj_numbers):
         """ Get best-fit results for density profile fitting
         
@@ -1026,6 +1044,7 @@ cdef class CosmicBase:
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
+        method = self._methodOutToInternal(method)
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -1072,6 +1091,7 @@ cdef class CosmicBase:
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
+        method = self._methodOutToInternal(method)
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -1117,6 +1137,7 @@ cdef class CosmicBase:
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs_ = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
         dens_profs_fit_ = dens_profs_fit.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs_fit is in M_sun*h^2/(Mpc)**3
+        method = self._methodOutToInternal(method)
         obj_centers, obj_masses = self._getMassesCenters(obj_numbers) # In units of Mpc/h (internal length units) and 10^10*M_sun*h^2/(Mpc)**3
         
         if rank == 0:
-- 
2.43.0


From 7f0710db520d8397159c6e2e96204178381fb28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 22/52] fix: do not let the arbitrary signs of shape axes
 affect ellipsoidal density profiles

---
 cosmic_profiles/common/python_routines.py     | 16 +++++++++++++
 .../dens_profs/dens_profs_algos.pyx           | 23 +++++++++++--------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 44b1204..2f63793 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -566,6 +566,22 @@ def recentreObject(xyz, L_BOX):
     xyz_out[:,2][xyz_out[:,2] < 0.0] = xyz_out[:,2][xyz_out[:,2] < 0.0]+L_BOX
     return xyz_out
     
+def alignAxes(axes):
+    """ Flip axes such that each points into the same half-space as the one before
+    
+    The sign of an eigenvector is arbitrary, but matters when interpolating between axes at different radii.
+    
+    :param axes: axes at each radius, np.nan where unclassified
+    :type axes: (N,3) floats
+    :return: axes with updated signs
+    :rtype: (N,3) floats"""
+    axes_out = axes.copy()
+    valid = np.where(~np.isnan(axes_out[:,0]))[0]
+    for i, j in zip(valid[:-1], valid[1:]):
+        if np.dot(axes_out[i], axes_out[j]) < 0.0:
+            axes_out[j] = -axes_out[j]
+    return axes_out
+
 def getCatWithinFracR200(cat_in, obj_size_in, xyz, masses, L_BOX, CENTER, r200, frac_r200):
     """ Cleanse index catalogue ``cat_in`` of particles beyond R200 ``r200``
     
diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index c96f612..64879e3 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -7,7 +7,7 @@ import numpy as np
 cimport cython
 from cosmic_profiles.cython_helpers.helper_class cimport CythonHelpers
 from scipy.interpolate import interp1d
-from cosmic_profiles.common.python_routines import respectPBCNoRef, calcMode, calcCoM, recentreObject
+from cosmic_profiles.common.python_routines import respectPBCNoRef, calcMode, calcCoM, recentreObject, alignAxes
 from cython.parallel import prange
 from cosmic_profiles.common.caching import np_cache_factory
 
@@ -168,18 +168,21 @@ def calcDensProfsEllDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
     cdef double[:,:,:] minor_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     for p in range(nb_objs):
         r_vec = np.float64(a.base[p])
+        major_p = alignAxes(major.base[p])
+        inter_p = alignAxes(inter.base[p])
+        minor_p = alignAxes(minor.base[p])
         a_inter = interp1d(r_vec, a.base[p], bounds_error=False, fill_value='extrapolate')
         b_inter = interp1d(r_vec, b.base[p], bounds_error=False, fill_value='extrapolate')
         c_inter = interp1d(r_vec, c.base[p], bounds_error=False, fill_value='extrapolate')
-        majorx_inter = interp1d(r_vec, major.base[p,:,0], bounds_error=False, fill_value='extrapolate')
-        majory_inter = interp1d(r_vec, major.base[p,:,1], bounds_error=False, fill_value='extrapolate')
-        majorz_inter = interp1d(r_vec, major.base[p,:,2], bounds_error=False, fill_value='extrapolate')
-        interx_inter = interp1d(r_vec, inter.base[p,:,0], bounds_error=False, fill_value='extrapolate')
-        intery_inter = interp1d(r_vec, inter.base[p,:,1], bounds_error=False, fill_value='extrapolate')
-        interz_inter = interp1d(r_vec, inter.base[p,:,2], bounds_error=False, fill_value='extrapolate')
-        minorx_inter = interp1d(r_vec, minor.base[p,:,0], bounds_error=False, fill_value='extrapolate')
-        minory_inter = interp1d(r_vec, minor.base[p,:,1], bounds_error=False, fill_value='extrapolate')
-        minorz_inter = interp1d(r_vec, minor.base[p,:,2], bounds_error=False, fill_value='extrapolate')
+        majorx_inter = interp1d(r_vec, major_p[:,0], bounds_error=False, fill_value='extrapolate')
+        majory_inter = interp1d(r_vec, major_p[:,1], bounds_error=False, fill_value='extrapolate')
+        majorz_inter = interp1d(r_vec, major_p[:,2], bounds_error=False, fill_value='extrapolate')
+        interx_inter = interp1d(r_vec, inter_p[:,0], bounds_error=False, fill_value='extrapolate')
+        intery_inter = interp1d(r_vec, inter_p[:,1], bounds_error=False, fill_value='extrapolate')
+        interz_inter = interp1d(r_vec, inter_p[:,2], bounds_error=False, fill_value='extrapolate')
+        minorx_inter = interp1d(r_vec, minor_p[:,0], bounds_error=False, fill_value='extrapolate')
+        minory_inter = interp1d(r_vec, minor_p[:,1], bounds_error=False, fill_value='extrapolate')
+        minorz_inter = interp1d(r_vec, minor_p[:,2], bounds_error=False, fill_value='extrapolate')
         a_interpol.base[p] = a_inter(bin_edges.base*r200s[p])
         b_interpol.base[p] = b_inter(bin_edges.base*r200s[p])
         c_interpol.base[p] = c_inter(bin_edges.base*r200s[p])
-- 
2.43.0


From bcf04018383a483e0181bfe159d8a7dabb8ebd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 23/52] fix: do not let empty bins spoil density profile fits

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 19d421d..8d1e404 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -258,9 +258,9 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
         min_method = 'Powell'
     
     R_to_min = ROverR200*r200 # Mpc/h
-    # Discard nan values in median
-    R_to_min = R_to_min[~np.isnan(median)] # Note: np.isnan returns a boolean
-    median = median[~np.isnan(median)]
+    # Discard nan values in median as well as empty bins, whose logarithm is not finite
+    R_to_min = R_to_min[median > 0.0] # Note: False for nan
+    median = median[median > 0.0]
     # Set initial guess and minimize scalar function
     if 'rho_s' in method:
         rho_s_lbound = method['rho_s']/np.average(median) # The rescaled median is fitted
-- 
2.43.0


From 08385eceaf5c3f4da8d684539ee53b72540a3961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 24/52] fix: mark fits to density profiles without any valid
 bin as not converged

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 8d1e404..83fd548 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -324,6 +324,8 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
             res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
             best_fit = res.x
         best_fit[0] *= np.average(median)
+        if len(median) == 0: # Nothing to fit
+            best_fit = iguess*np.nan
     except ValueError: # For poor density profiles one might encounter "ValueError: `x0` violates bound constraints."
         best_fit = iguess*np.nan
     return best_fit, obj_nb
-- 
2.43.0


From 7eb20db85c3750c5801bc0ec6f82232dae231049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 25/52] fix: leave objects unclassified if the selected
 particles are coplanar

---
 cosmic_profiles/shape_profs/shape_profs_algos.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index eee4c18..4b908dc 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -98,6 +98,9 @@ cdef double[:] runShellAlgo(double[:] morph_info, double[:,:] xyz, double[:,:] x
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not eigval[0] > 0.0: # Points are coplanar, no ellipsoid can be assigned
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -223,6 +226,9 @@ cdef double[:] runEllAlgo(double[:] morph_info, double[:,:] xyz, double[:,:] xyz
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not eigval[0] > 0.0: # Points are coplanar, no ellipsoid can be assigned
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -344,6 +350,9 @@ cdef double[:] runEllVDispAlgo(double[:] morph_info, double[:,:] xyz, double[:,:
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not eigval[0] > 0.0: # Points are coplanar, no ellipsoid can be assigned
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -467,6 +476,9 @@ cdef double[:] runShellVDispAlgo(double[:] morph_info, double[:,:] xyz, double[:
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not eigval[0] > 0.0: # Points are coplanar, no ellipsoid can be assigned
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
-- 
2.43.0


From ee0662d11e9b8cc4ab37d822905fe595eec312df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 26/52] fix: end the search for the mode once the particles
 left coincide

---
 cosmic_profiles/common/cosmo_tools.py     | 2 ++
 cosmic_profiles/common/python_routines.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cosmic_profiles/common/cosmo_tools.py b/cosmic_profiles/common/cosmo_tools.py
index 9f21fb2..dfeb811 100644
--- a/cosmic_profiles/common/cosmo_tools.py
+++ b/cosmic_profiles/common/cosmo_tools.py
@@ -29,6 +29,8 @@ def calcMode(xyz, masses, rad):
     masses_constrain = masses[distances_all < rad]
     if xyz_constrain.shape[0] < 5: # If only < 5 particles left, return
         return com
+    elif np.all(xyz_constrain == xyz_constrain[0]): # If the particles left coincide, shrinking further would never end
+        return xyz_constrain[0]
     else:
         rad *= 0.83 # Reduce radius by 17 %
         return calcMode(xyz_constrain, masses_constrain, rad)
diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 2f63793..86a8587 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -301,6 +301,8 @@ def calcMode(xyz, masses, rad):
     masses_constrain = masses[distances_all < rad]
     if xyz_constrain.shape[0] < 5: # If only < 5 particles left, return
         return com
+    elif np.all(xyz_constrain == xyz_constrain[0]): # If the particles left coincide, shrinking further would never end
+        return xyz_constrain[0]
     else:
         rad *= 0.83 # Reduce radius by 17 %
         return calcMode(xyz_constrain, masses_constrain, rad)
-- 
2.43.0


From 80289a6c1c35cc70648509ef7bdc6118d5bef3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 27/52] fix: do not derive the width of particle IDs from a
 file without particles

---
 cosmic_profiles/gadget/readgadget.py | 2 +-
 cosmic_profiles/gadget/readsnap.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 786807f..209c64d 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -155,7 +155,7 @@ def read_block(snapshot, block, ptype, verbose=False):
         dtype=np.float64
     elif block=="ID  ":  
         unit_fac = 1
-        dtype=read_field(filename, block, ptype[0]).dtype
+        dtype=np.uint64 # Wide enough for 32-bit and 64-bit IDs
     elif block=="VEL ":  
         unit_fac = v_target_over_curr
         dtype=np.dtype((np.float64,3))
diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index f4b9c41..71bc7e4 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -351,7 +351,7 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
       
     offset,blocksize = find_block(curfilename,format,swap,block,block_num)
     
-    if i==0: # Fix data type for ID if long IDs are used
+    if curpartnum>0: # Fix data type for ID if long IDs are used
       if block=="ID  ":
         if blocksize == np.dtype(dt).itemsize*curpartnum * 2:
           dt = np.uint64 
-- 
2.43.0


From 72fb18b7883a81bdf5190224f51c428bffa0158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 28/52] fix: refuse binary snapshots that end within the block
 that is read

---
 cosmic_profiles/gadget/readsnap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 71bc7e4..989cc42 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -365,6 +365,9 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
     f.seek(offset + add_offset*np.dtype(dt).itemsize, os.SEEK_CUR)  
     curdat = np.fromfile(f,dtype=dt,count=actual_curpartnum) # Read data
     f.close()  
+    if curdat.shape[0] != actual_curpartnum:
+      print("something wrong: unexpected end of file", curfilename)
+      sys.exit()
     if swap:  curdat.byteswap(True)  
           
     for j in range(6):
-- 
2.43.0


From 60fa3c911d6d64a910e9f86ea4acc38ef65cb6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 29/52] fix: sum the masses for the centre of mass in double
 precision

---
 cosmic_profiles/cython_helpers/helper_class.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index 12962b0..bf0c569 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -95,7 +95,7 @@ cdef class CythonHelpers:
         :rtype: (3,) floats"""
         com[:] = 0.0
         cdef int run
-        cdef float mass_total = 0.0
+        cdef double mass_total = 0.0
         for run in range(nns.shape[0]):
             mass_total += masses[run]
         for run in range(nns.shape[0]):
-- 
2.43.0


From fe694702c909254283c36519b5fa6f4a2a46cb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 30/52] fix: reload dumped local shapes that have a single
 radius

---
 cosmic_profiles/common/cosmic_base_class.pyx | 58 ++++++--------------
 1 file changed, 16 insertions(+), 42 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index c7c538a..3602245 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -118,9 +118,9 @@ cdef class CosmicBase:
         if rank == 0:
             
             if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
-                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
+                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
@@ -133,24 +133,11 @@ cdef class CosmicBase:
                 d = d/l_curr_over_target
                 obj_centers = obj_centers/l_curr_over_target
                 obj_masses = obj_masses/m_curr_over_target
-                if d.shape[0] != 0 and d.ndim == 2:
-                    minor = minor.reshape(minor.shape[0], -1, 3)
-                    inter = inter.reshape(inter.shape[0], -1, 3)
-                    major = major.reshape(major.shape[0], -1, 3)
-                elif d.ndim == 1:
-                    minor = minor.reshape(1, -1, 3)
-                    inter = inter.reshape(1, -1, 3)
-                    major = major.reshape(1, -1, 3)
-                    obj_masses = np.array([obj_masses])
-                    obj_centers = obj_centers.reshape(1, 3)
-                    d = d.reshape(1, -1)
-                    q = q.reshape(1, -1)
-                    s = s.reshape(1, -1)
-                else:
-                    minor = np.array([])
-                    inter = np.array([])
-                    major = np.array([])
-            
+                minor = minor.reshape(d.shape[0], d.shape[1], 3)
+                inter = inter.reshape(d.shape[0], d.shape[1], 3)
+                major = major.reshape(d.shape[0], d.shape[1], 3)
+                obj_masses = obj_masses.reshape(d.shape[0])
+                obj_centers = obj_centers.reshape(d.shape[0], 3)
             else:
                 d, q, s, minor, inter, major, obj_centers, obj_masses = calcMorphLocal(xyz.base, masses.base, r200.base, idx_cat.base, obj_size.base, self.L_BOX, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, self.CENTER, reduced, shell_based)
             return d, q, s, minor, inter, major, obj_centers, obj_masses
@@ -287,9 +274,9 @@ cdef class CosmicBase:
         if rank == 0:
             
             if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
-                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
+                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
@@ -302,24 +289,11 @@ cdef class CosmicBase:
                 d = d/l_curr_over_target
                 obj_centers = obj_centers/l_curr_over_target
                 obj_masses = obj_masses/m_curr_over_target
-                if d.shape[0] != 0 and d.ndim == 2:
-                    minor = minor.reshape(minor.shape[0], -1, 3)
-                    inter = inter.reshape(inter.shape[0], -1, 3)
-                    major = major.reshape(major.shape[0], -1, 3)
-                elif d.ndim == 1:
-                    minor = minor.reshape(1, -1, 3)
-                    inter = inter.reshape(1, -1, 3)
-                    major = major.reshape(1, -1, 3)
-                    obj_masses = np.array([obj_masses])
-                    obj_centers = obj_centers.reshape(1, 3)
-                    d = d.reshape(1, -1)
-                    q = q.reshape(1, -1)
-                    s = s.reshape(1, -1)
-                else:
-                    minor = np.array([])
-                    inter = np.array([])
-                    major = np.array([])
-            
+                minor = minor.reshape(d.shape[0], d.shape[1], 3)
+                inter = inter.reshape(d.shape[0], d.shape[1], 3)
+                major = major.reshape(d.shape[0], d.shape[1], 3)
+                obj_masses = obj_masses.reshape(d.shape[0])
+                obj_centers = obj_centers.reshape(d.shape[0], 3)
             else:
                 d, q, s, minor, inter, major, obj_centers, obj_masses = calcMorphLocalVelDisp(xyz.base, velxyz.base, masses.base, r200.base, idx_cat.base, obj_size.base, self.L_BOX, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, self.CENTER, reduced, shell_based)
                 print_status(rank, self.start_time, "Finished calcMorphLocalVelDisp()")
-- 
2.43.0


From 94c704333b87ceef279de5a3f558e907043a147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 31/52] fix: constructing DensShapeProfsGadget no longer raises
 on ranks other than 0

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 2468f6e..5109706 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -581,11 +581,11 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             del nb_shs; del sh_len; del fof_sizes; del group_r200
         else:
             del nb_shs; del sh_len; del fof_sizes; del group_r200; del xyz; del masses  
-            obj_cat = None
-            obj_r200 = None
-            obj_size = None
-            xyz = None
-            masses = None
+            obj_cat = np.empty((0,), dtype = np.int32)
+            obj_r200 = np.empty((0,), dtype = np.float64)
+            obj_size = np.empty((0,), dtype = np.int32)
+            xyz = np.empty((0,3), dtype = np.float64)
+            masses = np.empty((0,), dtype = np.float64)
         # Find L_BOX
         head = readgadget.header(self.SNAP_DEST)
         L_BOX = np.float64(head.boxsize)
-- 
2.43.0


From e4627961b8f778d629454c878e1b29b66a081f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 32/52] fix: fitDensProfs returns None on ranks other than 0
 instead of raising

---
 cosmic_profiles/dens_profs/dens_profs_classes.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmic_profiles/dens_profs/dens_profs_classes.pyx b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
index f15988a..43249dd 100644
--- a/cosmic_profiles/dens_profs/dens_profs_classes.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
@@ -174,6 +174,8 @@ cdef class DensProfsBase(CosmicBase):
         :rtype: structured array, containing (N3, n) floats, where n is the number of free parameters in the model ``method``"""
         checkDensFitMethod(method)
         best_fits = self._fitDensProfsBase(self.r200.base, self.obj_size.base, np.float64(dens_profs), np.float64(r_over_r200), method, obj_numbers)
+        if best_fits is None: # Only rank = 0 has results
+            return None
         model_pars = {'einasto': [('alpha', "f8"), ('r_s', "f8")], 'nfw': [('r_s', "f8")], 'hernquist': [('r_s', "f8")], 'alpha_beta_gamma': [('alpha', "f8"), ('beta', "f8"), ('gamma', "f8"), ('r_s', "f8")]}
         FITS_PROF_DTYPE = [("rho_s", "f8")] + [tuple_ for tuple_ in model_pars[method['profile']]]
         FITS_PROF_DTYPE+=[("is_conv", "bool")]
-- 
2.43.0


From 04b8dbd79cf8a73e27c0ba3f406451538c3a3f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 33/52] fix: viz[Local,Global]Shapes showed center and
 ellipsoid of an object across the box boundary a box length away from its
 particles

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 5109706..67cdb04 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -187,6 +187,9 @@ cdef class DensShapeProfsBase(DensProfsBase):
                     obj[idx] = self.xyz.base[ptc]
                     masses_obj[idx] = self.masses.base[ptc]
                 obj = config.LengthInternalToOut(respectPBCNoRef(obj, self.L_BOX))
+                if self.L_BOX != 0.0: # Show the particles on the same side of the box as the center
+                    L_BOX = config.LengthInternalToOut(np.float64(self.L_BOX))
+                    obj = obj+L_BOX*np.rint((center-np.average(obj, axis = 0))/L_BOX)
                 # Plotting
                 fig = pyplot.figure()
                 ax = Axes3D(fig, auto_add_to_figure = False)
@@ -282,6 +285,9 @@ cdef class DensShapeProfsBase(DensProfsBase):
                     obj[idx] = self.xyz.base[ptc]
                     masses_obj[idx] = self.masses.base[ptc]
                 obj = config.LengthInternalToOut(respectPBCNoRef(obj, self.L_BOX))
+                if self.L_BOX != 0.0: # Show the particles on the same side of the box as the center
+                    L_BOX = config.LengthInternalToOut(np.float64(self.L_BOX))
+                    obj = obj+L_BOX*np.rint((center-np.average(obj, axis = 0))/L_BOX)
                 # Plotting
                 fig = pyplot.figure()
                 ax = Axes3D(fig, auto_add_to_figure = False)
-- 
2.43.0


From d24fd2781a473c2f5fbc8d15035ef0cd45f2210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 34/52] fix: plotLocalEpsHist raised ZeroDivisionError if a
 single particle of an object is within frac_r200

---
 cosmic_profiles/shape_profs/shape_profs_tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index 1b55c29..fb583aa 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -55,6 +55,9 @@ def getEpsilon(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, angle=0.0):
             qxx = shape_tensor[0,0]
             qyy = shape_tensor[1,1]
             qxy = shape_tensor[0,1]
+            if qxx+qyy == 0.0: # Not defined, e.g. for a single particle
+                eps.append(np.nan)
+                continue
             eps.append((qxx-qyy)/(qxx+qyy) + complex(0,1)*2*qxy/(qxx+qyy))
         eps = np.array(eps)
         return eps
-- 
2.43.0


From 6e15b49b9f8c928b31334c36f093701a50f3d41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:30 +0000
Subject: [PATCH 35/52] fix: objects of coincident particles were not
 recognised as such because of rounding in single precision

---
 .../cython_helpers/helper_class.pxd           |  2 +-
 .../cython_helpers/helper_class.pyx           | 19 ++++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/cosmic_profiles/cython_helpers/helper_class.pxd b/cosmic_profiles/cython_helpers/helper_class.pxd
index 330f723..d3cf68e 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pxd
+++ b/cosmic_profiles/cython_helpers/helper_class.pxd
@@ -8,7 +8,7 @@ cdef class CythonHelpers:
     cdef complex[::1,:] calcShapeTensor(double[:,:] nns, int[:] select, complex[::1,:] shape_tensor, double[:] masses, double[:] center, int nb_pts, bint reduced, double[:] r_ell = *) nogil
     
     @staticmethod
-    cdef float calcLocalSpread(double[:,:] nns) nogil
+    cdef double calcLocalSpread(double[:,:] nns) nogil
 
     @staticmethod
     cdef double[:] calcCoM(double[:,:] nns, double[:] masses, double[:] com) nogil
diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index bf0c569..fca78d2 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -59,24 +59,25 @@ cdef class CythonHelpers:
     @cython.boundscheck(False)
     @cython.wraparound(False) 
     @staticmethod
-    cdef float calcLocalSpread(double[:,:] nns) nogil:
+    cdef double calcLocalSpread(double[:,:] nns) nogil:
         """ Calculate local spread (2nd moment) around center of volume of point cloud
         
         :param nns: positions of cloud particles
         :type nns: (N,3) floats
         :return: local spread
         :rtype: float"""
-        cdef float loc_spread = 0
-        cdef float nns_mean_x = 0
-        cdef float nns_mean_y = 0
-        cdef float nns_mean_z = 0
+        cdef double loc_spread = 0
+        cdef double nns_mean_x = 0
+        cdef double nns_mean_y = 0
+        cdef double nns_mean_z = 0
         cdef int i
+        # Mean offset from the first point, which vanishes exactly if all points coincide
         for i in range(nns.shape[0]):
-            nns_mean_x += nns[i,0]/nns.shape[0]
-            nns_mean_y += nns[i,1]/nns.shape[0]
-            nns_mean_z += nns[i,2]/nns.shape[0]
+            nns_mean_x += (nns[i,0]-nns[0,0])/nns.shape[0]
+            nns_mean_y += (nns[i,1]-nns[0,1])/nns.shape[0]
+            nns_mean_z += (nns[i,2]-nns[0,2])/nns.shape[0]
         for i in range(nns.shape[0]):
-            loc_spread += sqrt((nns[i,0]-nns_mean_x)**2+(nns[i,1]-nns_mean_y)**2+(nns[i,2]-nns_mean_z)**2)/nns.shape[0]
+            loc_spread += sqrt((nns[i,0]-nns[0,0]-nns_mean_x)**2+(nns[i,1]-nns[0,1]-nns_mean_y)**2+(nns[i,2]-nns[0,2]-nns_mean_z)**2)/nns.shape[0]
         return loc_spread
 
     @cython.boundscheck(False)
-- 
2.43.0


From 0bec5d3876c6e69414c646f7f749b9e2c3bee88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 36/52] fix: a particle exactly at the center made the reduced
 shape tensor divide by zero

---
 cosmic_profiles/cython_helpers/helper_class.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index fca78d2..18f3556 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -50,7 +50,7 @@ cdef class CythonHelpers:
                     for run in range(nb_pts):
                         if reduced == False:
                             shape_tensor[i,j] = shape_tensor[i,j] + <complex>(masses[select[run]]*(nns[select[run],i]-center[i])*(nns[select[run],j]-center[j])/mass_tot)
-                        else:
+                        elif r_ell[select[run]] > 0.0: # The 1/r^2 weight of a particle exactly at the center is undefined
                             shape_tensor[i,j] = shape_tensor[i,j] + <complex>(masses[select[run]]*(nns[select[run],i]-center[i])*(nns[select[run],j]-center[j])/(mass_tot*r_ell[select[run]]**2))
                     if i > j:
                         shape_tensor[j,i] = shape_tensor[i,j]
-- 
2.43.0


From 90f049e6edc8a3e4dbf65dfc095264cdff6cb06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:16 +0000
Subject: [PATCH 37/52] fix: particles without mass made the shape tensor
 divide by zero

---
 cosmic_profiles/cython_helpers/helper_class.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index 18f3556..7a6771b 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -42,6 +42,8 @@ cdef class CythonHelpers:
         cdef int run
         for run in range(nb_pts):
             mass_tot = mass_tot+masses[select[run]]
+        if mass_tot == 0.0: # The mean over massless particles is undefined, the vanishing tensor leaves them unclassified
+            return shape_tensor
         cdef int i
         cdef int j
         for i in range(3):
-- 
2.43.0


From 1c18d78ac2b437598eb745556fe12304168b86d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:50 +0000
Subject: [PATCH 38/52] fix: a subfile without particles of a block's types
 made the block unreadable if the file leaves it out

---
 cosmic_profiles/gadget/readsnap.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 989cc42..484f5ae 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -349,26 +349,28 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
       actual_curpartnum = curpartnum
       add_offset = np.int32(0)
       
-    offset,blocksize = find_block(curfilename,format,swap,block,block_num)
+    if curpartnum==0: # A block is left out of a subfile without particles of its types
+      curdat = np.empty(0,dt)
+    else:
+      offset,blocksize = find_block(curfilename,format,swap,block,block_num)
     
-    if curpartnum>0: # Fix data type for ID if long IDs are used
-      if block=="ID  ":
+      if block=="ID  ": # Fix data type for ID if long IDs are used
         if blocksize == np.dtype(dt).itemsize*curpartnum * 2:
           dt = np.uint64 
           data = data.astype(dt)
         
-    if np.dtype(dt).itemsize*curpartnum != blocksize:
-      print("something wrong with blocksize! expected =",np.dtype(dt).itemsize*curpartnum,"actual =",blocksize)
-      sys.exit()
+      if np.dtype(dt).itemsize*curpartnum != blocksize:
+        print("something wrong with blocksize! expected =",np.dtype(dt).itemsize*curpartnum,"actual =",blocksize)
+        sys.exit()
     
-    f = open(curfilename,'rb')
-    f.seek(offset + add_offset*np.dtype(dt).itemsize, os.SEEK_CUR)  
-    curdat = np.fromfile(f,dtype=dt,count=actual_curpartnum) # Read data
-    f.close()  
-    if curdat.shape[0] != actual_curpartnum:
-      print("something wrong: unexpected end of file", curfilename)
-      sys.exit()
-    if swap:  curdat.byteswap(True)  
+      f = open(curfilename,'rb')
+      f.seek(offset + add_offset*np.dtype(dt).itemsize, os.SEEK_CUR)  
+      curdat = np.fromfile(f,dtype=dt,count=actual_curpartnum) # Read data
+      f.close()  
+      if curdat.shape[0] != actual_curpartnum:
+        print("something wrong: unexpected end of file", curfilename)
+        sys.exit()
+      if swap:  curdat.byteswap(True)  
           
     for j in range(6):
       if actual_data_for_type[j]:
-- 
2.43.0


From 34e92f4449b60f8355a8a824c6e4f5cc1988a1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:55 +0000
Subject: [PATCH 39/52] fix: figures stayed open, and in memory, after they had
 been saved

---
 cosmic_profiles/dens_profs/dens_profs_tools.py      | 2 ++
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 ++
 cosmic_profiles/shape_profs/shape_profs_tools.py    | 9 +++++++++
 3 files changed, 13 insertions(+)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 83fd548..00b67a0 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -184,6 +184,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         plt.ylabel(r"$\rho$ [${}$]".format(dens_label))
         plt.legend(loc="upper right", fontsize="x-small")
         plt.savefig("{}/RhoProf_{}.pdf".format(VIZ_DEST, SNAP), bbox_inches="tight")
+        plt.close()
         
         for group in range(len(obj_m_groups)):
             obj_pass_m = np.int32([1 if i in idx_groups[group] else 0 for i in range(r200s.shape[0])])
@@ -209,6 +210,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
             plt.ylabel(r"$\rho$ [${}$]".format(dens_label))
             plt.legend(loc="upper right", fontsize="x-small")
             plt.savefig("{}/RhoProfM{:.2f}_{}.pdf".format(VIZ_DEST, np.float32(np.log10(max_min_m[group])), SNAP), bbox_inches="tight")
+            plt.close()
         del y; del err_low; del err_high
         return
 
diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 67cdb04..ac2c4ac 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -242,6 +242,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
                 ax.set_box_aspect([1,1,1])
                 set_axes_equal(ax)
                 fig.savefig("{}/LocalObj{}{}{}.pdf".format(self.VIZ_DEST, obj_number, self.SUFFIX, self.SNAP), bbox_inches='tight')
+                pyplot.close(fig)
         
     def vizGlobalShapes(self, obj_numbers, katz_config = default_katz_config): # Public Method
         """ Visualize global shape of objects with numbers ``obj_numbers``
@@ -321,6 +322,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
                 ax.set_box_aspect([1,1,1])
                 set_axes_equal(ax)
                 fig.savefig("{}/GlobalObj{}{}{}.pdf".format(self.VIZ_DEST, obj_number, self.SUFFIX, self.SNAP), bbox_inches='tight')
+                pyplot.close(fig)
     
     def plotGlobalEpsHist(self, HIST_NB_BINS, obj_numbers): # Public Method
         """ Plot global ellipticity histogram
diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index fb583aa..ac3e80d 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -164,6 +164,7 @@ def getShapeProfs(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         plt.ylabel(r"q")
         plt.ylim(0.0, 1.0)
         plt.savefig("{0}/q{1}{2}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
+        plt.close()
         
         # S
         plt.figure()
@@ -175,6 +176,7 @@ def getShapeProfs(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         plt.ylabel(r"s")
         plt.ylim(0.0, 1.0)
         plt.savefig("{0}/s{1}{2}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
+        plt.close()
         
         # T
         plt.figure()
@@ -195,6 +197,7 @@ def getShapeProfs(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         plt.legend(loc="upper right", fontsize="x-small")
         plt.ylim(0.0, 1.0)
         plt.savefig("{0}/T{1}{2}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
+        plt.close()
         
         # Q: M-splitting
         for group in range(len(obj_m_groups)):
@@ -208,6 +211,7 @@ def getShapeProfs(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
             plt.ylabel(r"q")
             plt.ylim(0.0, 1.0)
             plt.savefig("{}/qM{:.2f}{}{}.pdf".format(VIZ_DEST, np.float64(np.log10(max_min_m[group])), suffix, SNAP), bbox_inches="tight")
+            plt.close()
         
         # S: M-splitting
         for group in range(len(obj_m_groups)):
@@ -221,6 +225,7 @@ def getShapeProfs(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
             plt.ylabel(r"s")
             plt.ylim(0.0, 1.0)
             plt.savefig("{}/sM{:.2f}{}{}.pdf".format(VIZ_DEST, np.float64(np.log10(max_min_m[group])), suffix, SNAP), bbox_inches="tight")
+            plt.close()
         
         # T: M-splitting
         for group in range(len(obj_m_groups)):
@@ -235,6 +240,7 @@ def getShapeProfs(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
             plt.ylabel(r"T")
             plt.ylim(0.0, 1.0)
             plt.savefig("{}/TM{:.2f}{}{}.pdf".format(VIZ_DEST, np.float64(np.log10(max_min_m[group])), suffix, SNAP), bbox_inches="tight")
+            plt.close()
 
 def getLocalTHist(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj_centers, d, q, s, major_full, HIST_NB_BINS, frac_r200, MASS_UNIT, suffix = '_'):
     """ Plot triaxiality T histogram
@@ -295,6 +301,7 @@ def getLocalTHist(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         plt.xlim(0.0, 1.0)
         plt.legend(loc="upper left", fontsize="x-small")
         plt.savefig("{0}/LocalTCount{1}{2}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
+        plt.close()
         
         t = t[np.logical_not(np.isnan(t))]
         print_status(rank, start_time, "The number of objects considered is {0}. The average T value for the objects is {1} and the standard deviation (assuming T is Gaussian distributed) is {2}".format(d.shape[0], round(np.average(t),2), round(np.std(t),2)))
@@ -350,6 +357,7 @@ def getGlobalTHist(VIZ_DEST, SNAP, start_time, obj_masses, obj_centers, d, q, s,
         plt.xlim(0.0, 1.0)
         plt.legend(loc="upper left", fontsize="x-small")
         plt.savefig("{0}/GlobalTCount{1}{2}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
+        plt.close()
         
         t = t[np.logical_not(np.isnan(t))]
         print_status(rank, start_time, "The number of objects considered is {0}. The average T value for the objects is {1} and the standard deviation (assuming T is Gaussian distributed) is {2}".format(d.shape[0], round(np.average(t),2), round(np.std(t),2)))
@@ -392,6 +400,7 @@ def getGlobalEpsHist(xyz, masses, idx_cat, obj_size, L_BOX, CENTER, VIZ_DEST, SN
         plt.grid(axis='y', alpha=0.75)
         plt.xlim(0.0, 1.0)
         plt.savefig("{0}/EpsCount{1}{2}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
+        plt.close()
         
 def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DEST, SNAP, frac_r200, suffix = '_', HIST_NB_BINS = 11):
     """ Plot ellipticity histogram
-- 
2.43.0


From 8f1f80631ada281d83b2009208ef115dc04b35fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:55 +0000
Subject: [PATCH 40/52] fix: a shell thicker than the minor axis left out
 particles that it holds

---
 cosmic_profiles/shape_profs/shape_profs_algos.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 4b908dc..b74cbbc 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -130,7 +130,7 @@ cdef double[:] runShellAlgo(double[:] morph_info, double[:,:] xyz, double[:,:] x
         shell[:] = 0
         pts_in_shell = 0
         corr = 0
-        if d == delta_d: # I.e. first shell
+        if d == delta_d or s_new*d <= delta_d: # I.e. first shell, or one as thick as the minor axis (no inner surface)
             for i in range(xyz_princ.shape[0]):
                 if xyz_princ[i,0]**2+xyz_princ[i,1]**2/q_new**2+xyz_princ[i,2]**2/s_new**2 < d**2:
                     shell[i-corr] = i
@@ -508,7 +508,7 @@ cdef double[:] runShellVDispAlgo(double[:] morph_info, double[:,:] xyz, double[:
         shell[:] = 0
         pts_in_shell = 0
         corr = 0
-        if d == delta_d: # I.e. first shell
+        if d == delta_d or s_new*d <= delta_d: # I.e. first shell, or one as thick as the minor axis (no inner surface)
             for i in range(xyz_princ.shape[0]):
                 if xyz_princ[i,0]**2+xyz_princ[i,1]**2/q_new**2+xyz_princ[i,2]**2/s_new**2 < d**2:
                     shell[i-corr] = i
-- 
2.43.0


From c5f6c955ad0ec81e6b6da96806e8cf6c0f0cbddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:11 +0000
Subject: [PATCH 41/52] fix: a dump that was interrupted left a catalogue that
 every later request failed on or took for complete

---
 cosmic_profiles/common/cosmic_base_class.pyx | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index 3602245..24372e2 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -443,7 +443,8 @@ cdef class CosmicBase:
             
             # Create CAT_DEST if not available
             subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
-            np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
+            if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)): # The catalogue is incomplete until it has been rewritten
+                os.remove('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
             np.savetxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), minor, fmt='%1.7e')
@@ -451,6 +452,8 @@ cdef class CosmicBase:
             np.savetxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
             np.savetxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
             np.savetxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            np.savetxt('{0}/d_local{1}{2}.txt.part'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e') # Comes last: its presence tells that the catalogue is complete
+            os.replace('{0}/d_local{1}{2}.txt.part'.format(self.CAT_DEST, suffix, self.SNAP), '{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
         
     def _dumpShapeCatGlobalBase(self, double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double IT_TOL, int IT_WALL, int IT_MIN, str suffix, bint reduced):
@@ -497,7 +500,8 @@ cdef class CosmicBase:
             
             # Create CAT_DEST if not available
             subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
-            np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
+            if os.path.exists('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)): # The catalogue is incomplete until it has been rewritten
+                os.remove('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
             np.savetxt('{0}/minor_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), minor, fmt='%1.7e')
@@ -505,6 +509,8 @@ cdef class CosmicBase:
             np.savetxt('{0}/major_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
             np.savetxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
             np.savetxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            np.savetxt('{0}/d_global{1}{2}.txt.part'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e') # Comes last: its presence tells that the catalogue is complete
+            os.replace('{0}/d_global{1}{2}.txt.part'.format(self.CAT_DEST, suffix, self.SNAP), '{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
     def _dumpShapeVelCatLocalBase(self, double[:,:] xyz, double[:,:] velxyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double[:] r_over_r200, double IT_TOL, int IT_WALL, int IT_MIN, str suffix, bint reduced, bint shell_based):
@@ -558,7 +564,8 @@ cdef class CosmicBase:
             
             # Create CAT_DEST if not available
             subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
-            np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
+            if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)): # The catalogue is incomplete until it has been rewritten
+                os.remove('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
             np.savetxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), minor, fmt='%1.7e')
@@ -566,6 +573,8 @@ cdef class CosmicBase:
             np.savetxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
             np.savetxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
             np.savetxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            np.savetxt('{0}/d_local{1}{2}.txt.part'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e') # Comes last: its presence tells that the catalogue is complete
+            os.replace('{0}/d_local{1}{2}.txt.part'.format(self.CAT_DEST, suffix, self.SNAP), '{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
     def _dumpShapeVelCatGlobalBase(self, double[:,:] xyz, double[:,:] velxyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double IT_TOL, int IT_WALL, int IT_MIN, str suffix, bint reduced):
@@ -616,7 +625,8 @@ cdef class CosmicBase:
             
             # Create CAT_DEST if not available
             subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
-            np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
+            if os.path.exists('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)): # The catalogue is incomplete until it has been rewritten
+                os.remove('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
             np.savetxt('{0}/minor_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), minor, fmt='%1.7e')
@@ -624,6 +634,8 @@ cdef class CosmicBase:
             np.savetxt('{0}/major_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
             np.savetxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
             np.savetxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            np.savetxt('{0}/d_global{1}{2}.txt.part'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e') # Comes last: its presence tells that the catalogue is complete
+            os.replace('{0}/d_global{1}{2}.txt.part'.format(self.CAT_DEST, suffix, self.SNAP), '{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
     def _plotShapeProfsBase(self, double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double[:] r_over_r200, double IT_TOL, int IT_WALL, int IT_MIN, bint reduced, bint shell_based, int nb_bins, str suffix = ''):
-- 
2.43.0


From 7f6dc472e5e9244a13b4b02724bfa5c47ca6fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:37 +0000
Subject: [PATCH 42/52] fix: a group catalogue with a file missing was read as
 if it were complete, and remembered

---
 cosmic_profiles/gadget/read_fof.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 0b8faae..b4da08a 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -53,6 +53,10 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
             raise ValueError("Could not find any HDF5 files. Please double-check provided paths, specifically HDF5_GROUP_DEST.")
         groupfile_argsort = np.argsort(np.array([np.int32(re.split('(\d+)', file)[-4]) for file in hdf5GroupFilenamesList]))
         hdf5GroupFilenamesList = np.array(hdf5GroupFilenamesList)[groupfile_argsort]
+        with h5py.File(r'{}'.format(hdf5GroupFilenamesList[0]), 'r') as g:
+            nb_files = g['Header'].attrs.get('NumFiles', len(hdf5GroupFilenamesList)) if 'Header' in g else len(hdf5GroupFilenamesList)
+        if nb_files != len(hdf5GroupFilenamesList): # Subhalos and particles of the missing files would be attributed to other halos
+            raise ValueError("The group catalogue has {} HDF5 files, but {} were found in HDF5_GROUP_DEST.".format(nb_files, len(hdf5GroupFilenamesList)))
         nb_jobs_to_do = len(hdf5GroupFilenamesList)
         perrank = nb_jobs_to_do//size + (nb_jobs_to_do//size == 0)*1
         do_sth = rank <= nb_jobs_to_do-1
-- 
2.43.0


From b0de7757e2bcc9e28af74bdd17b9266402c96969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:28 +0000
Subject: [PATCH 43/52] fix: the local ellipticity histogram stayed open after
 it had been saved

---
 cosmic_profiles/shape_profs/shape_profs_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index ac3e80d..3f6ef6f 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -446,4 +446,5 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
         plt.ylabel('Normalized Bin Count')
         plt.grid(axis='y', alpha=0.75)
         plt.xlim(0.0, 1.0)
-        plt.savefig("{0}/EpsCount{1}{2}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
\ No newline at end of file
+        plt.savefig("{0}/EpsCount{1}{2}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
+        plt.close()
-- 
2.43.0


From e86569a8ebd098311cbfcba3e256326d259a9486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:39 +0000
Subject: [PATCH 44/52] fix: a group catalogue that lacks subhalos attributed
 subhalos and particles to other halos

---
 cosmic_profiles/gadget/read_fof.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index b4da08a..343e5ca 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -78,6 +78,8 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
                     raise ValueError("RVIR_OR_R200 should be either 'Rvir' or 'R200'. Please modify the provided RVIR_OR_R200 variable.")
                 nb_shs = np.hstack((nb_shs, np.int32([np.int32(g['Group/GroupNsubs'][i]) for i in range(g['Group/GroupNsubs'].shape[0])])))
                 count_fof += g['Group/GroupLenType'].shape[0]
+                if not len(fof_sizes) == len(group_r200) == len(nb_shs):
+                    raise ValueError("The group datasets in {} differ in length.".format(hdf5GroupFilenamesList[snap_run]))
             if 'Subhalo/SubhaloLenType' in g:
                 sh_len = np.hstack((sh_len, np.int32([np.int32(g['Subhalo/SubhaloLenType'][i,PART_TYPE]) for i in range(g['Subhalo/SubhaloLenType'].shape[0])])))        
                 count_sh += g['Subhalo/SubhaloLenType'].shape[0]
@@ -132,6 +134,8 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
             to_bcast = sh_len_total[i*chunk:(i+1)*chunk+(i==(pieces-1))*(nb_sh-pieces*chunk)]
             comm.Bcast(to_bcast, root=0)
             sh_len = np.hstack((sh_len, to_bcast))
+        if np.sum(nb_shs, dtype = np.int64) != len(sh_len): # Subhalos and particles would be attributed to other halos
+            raise ValueError("The groups should have {} subhalos in total, but {} were found in HDF5_GROUP_DEST.".format(np.sum(nb_shs, dtype = np.int64), len(sh_len)))
         
         return nb_shs, sh_len, fof_sizes, np.float64(group_r200)
     if(not hasattr(getFoFSHData, "inner")):
-- 
2.43.0


From 490781f1f7a7312bb29f29e43dabec00a6728b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:40 +0000
Subject: [PATCH 45/52] fix: a cut HDF5 dataset of one row was repeated for all
 particles

---
 cosmic_profiles/gadget/readgadget.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 209c64d..8b537b1 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -117,6 +117,8 @@ def read_field(snapshot, block, ptype):
                 raise Exception('Problem reading the block %s'%block)
         else:
             array = f[prefix+suffix][:]
+            if len(array) != Npart[ptype]: # A single row would be repeated for all particles
+                raise Exception('Block %s has %d rows for %d particles'%(block,len(array),Npart[ptype]))
             if block!="ID  ":  array = array/unit_fac # IDs are integers and carry no unit
         f.close()
 
-- 
2.43.0


From efc3474e7935a591b9067fc241576117da1208a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:19 +0000
Subject: [PATCH 46/52] fix: under MPI the other processes waited forever when
 one could not read its group file

---
 cosmic_profiles/gadget/read_fof.py | 39 ++++++++++++++++++------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 343e5ca..9e4ce69 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -66,23 +66,30 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
             last = rank == nb_jobs_to_do - 1
         count_fof = 0
         count_sh = 0
+        error = None
         for snap_run in range(rank*perrank, rank*perrank+do_sth*(perrank+last*(nb_jobs_to_do-(rank+1)*perrank))):
-            g = h5py.File(r'{}'.format(hdf5GroupFilenamesList[snap_run]), 'r')
-            if 'Group/GroupLenType' in g:
-                fof_sizes = np.hstack((fof_sizes, np.int32([np.int32(g['Group/GroupLenType'][i,PART_TYPE]) for i in range(g['Group/GroupLenType'].shape[0])])))
-                if RVIR_OR_R200 == 'Rvir':
-                    group_r200 = np.hstack((group_r200, np.float32(g['Group/Group_R_TopHat200'][:]*l_curr_over_target)))
-                elif RVIR_OR_R200 == 'R200':
-                    group_r200 = np.hstack((group_r200, np.float32(g['Group/Group_R_Mean200'][:]*l_curr_over_target)))
-                else:
-                    raise ValueError("RVIR_OR_R200 should be either 'Rvir' or 'R200'. Please modify the provided RVIR_OR_R200 variable.")
-                nb_shs = np.hstack((nb_shs, np.int32([np.int32(g['Group/GroupNsubs'][i]) for i in range(g['Group/GroupNsubs'].shape[0])])))
-                count_fof += g['Group/GroupLenType'].shape[0]
-                if not len(fof_sizes) == len(group_r200) == len(nb_shs):
-                    raise ValueError("The group datasets in {} differ in length.".format(hdf5GroupFilenamesList[snap_run]))
-            if 'Subhalo/SubhaloLenType' in g:
-                sh_len = np.hstack((sh_len, np.int32([np.int32(g['Subhalo/SubhaloLenType'][i,PART_TYPE]) for i in range(g['Subhalo/SubhaloLenType'].shape[0])])))        
-                count_sh += g['Subhalo/SubhaloLenType'].shape[0]
+            try:
+                g = h5py.File(r'{}'.format(hdf5GroupFilenamesList[snap_run]), 'r')
+                if 'Group/GroupLenType' in g:
+                    fof_sizes = np.hstack((fof_sizes, np.int32([np.int32(g['Group/GroupLenType'][i,PART_TYPE]) for i in range(g['Group/GroupLenType'].shape[0])])))
+                    if RVIR_OR_R200 == 'Rvir':
+                        group_r200 = np.hstack((group_r200, np.float32(g['Group/Group_R_TopHat200'][:]*l_curr_over_target)))
+                    elif RVIR_OR_R200 == 'R200':
+                        group_r200 = np.hstack((group_r200, np.float32(g['Group/Group_R_Mean200'][:]*l_curr_over_target)))
+                    else:
+                        raise ValueError("RVIR_OR_R200 should be either 'Rvir' or 'R200'. Please modify the provided RVIR_OR_R200 variable.")
+                    nb_shs = np.hstack((nb_shs, np.int32([np.int32(g['Group/GroupNsubs'][i]) for i in range(g['Group/GroupNsubs'].shape[0])])))
+                    count_fof += g['Group/GroupLenType'].shape[0]
+                    if not len(fof_sizes) == len(group_r200) == len(nb_shs):
+                        raise ValueError("The group datasets in {} differ in length.".format(hdf5GroupFilenamesList[snap_run]))
+                if 'Subhalo/SubhaloLenType' in g:
+                    sh_len = np.hstack((sh_len, np.int32([np.int32(g['Subhalo/SubhaloLenType'][i,PART_TYPE]) for i in range(g['Subhalo/SubhaloLenType'].shape[0])])))        
+                    count_sh += g['Subhalo/SubhaloLenType'].shape[0]
+            except Exception as e:
+                error = e
+        errors = [e for e in comm.allgather(error) if e is not None]
+        if len(errors) > 0: # Every process has to fail, not only the one that was to read the file
+            raise errors[0]
         
         count_fof_new = comm.gather(count_fof, root=0)
         count_fof_new = comm.bcast(count_fof_new, root = 0)
-- 
2.43.0


From d6d183b1f1aae817584028e56bb6006290412bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:42 +0000
Subject: [PATCH 47/52] fix: a group file that could not be read was left open,
 so that its repair went unnoticed

---
 cosmic_profiles/gadget/read_fof.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 9e4ce69..901f364 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -66,7 +66,7 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
             last = rank == nb_jobs_to_do - 1
         count_fof = 0
         count_sh = 0
-        error = None
+        error = g = None
         for snap_run in range(rank*perrank, rank*perrank+do_sth*(perrank+last*(nb_jobs_to_do-(rank+1)*perrank))):
             try:
                 g = h5py.File(r'{}'.format(hdf5GroupFilenamesList[snap_run]), 'r')
@@ -87,6 +87,9 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
                     count_sh += g['Subhalo/SubhaloLenType'].shape[0]
             except Exception as e:
                 error = e
+            finally:
+                if g is not None:
+                    g.close()
         errors = [e for e in comm.allgather(error) if e is not None]
         if len(errors) > 0: # Every process has to fail, not only the one that was to read the file
             raise errors[0]
-- 
2.43.0


From ef1daf1c4bd20a98958d55f6f1b4bea19901ef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:52 +0000
Subject: [PATCH 48/52] fix: an HDF5 snapshot that could not be read was left
 open, so that its repair went unnoticed

---
 cosmic_profiles/gadget/readgadget.py | 54 ++++++++++++++--------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 8b537b1..5dcba97 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -37,20 +37,19 @@ class header:
         filename, fformat = fname_format(snapshot)
 
         if fformat=='hdf5':
-            f             = h5py.File(filename, 'r')
-            self.time     = f['Header'].attrs[u'Time']
-            self.redshift = f['Header'].attrs[u'Redshift']
-            self.boxsize  = f['Header'].attrs[u'BoxSize']
-            self.filenum  = f['Header'].attrs[u'NumFilesPerSnapshot']
-            self.omega_m  = f['Header'].attrs[u'Omega0']
-            self.omega_l  = f['Header'].attrs[u'OmegaLambda']
-            self.hubble   = f['Header'].attrs[u'HubbleParam']
-            self.massarr  = f['Header'].attrs[u'MassTable']
-            self.npart    = f['Header'].attrs[u'NumPart_ThisFile']
-            self.nall     = f['Header'].attrs[u'NumPart_Total']
-            self.cooling  = f['Header'].attrs[u'Flag_Cooling']
-            self.format   = 'hdf5'
-            f.close()
+            with h5py.File(filename, 'r') as f:
+                self.time     = f['Header'].attrs[u'Time']
+                self.redshift = f['Header'].attrs[u'Redshift']
+                self.boxsize  = f['Header'].attrs[u'BoxSize']
+                self.filenum  = f['Header'].attrs[u'NumFilesPerSnapshot']
+                self.omega_m  = f['Header'].attrs[u'Omega0']
+                self.omega_l  = f['Header'].attrs[u'OmegaLambda']
+                self.hubble   = f['Header'].attrs[u'HubbleParam']
+                self.massarr  = f['Header'].attrs[u'MassTable']
+                self.npart    = f['Header'].attrs[u'NumPart_ThisFile']
+                self.nall     = f['Header'].attrs[u'NumPart_Total']
+                self.cooling  = f['Header'].attrs[u'Flag_Cooling']
+                self.format   = 'hdf5'
 
         else:        
             head = readsnap.snapshot_header(filename)
@@ -105,22 +104,21 @@ def read_field(snapshot, block, ptype):
         return array
     else:
         prefix = 'PartType%d/'%ptype
-        f = h5py.File(filename, 'r')
+        with h5py.File(filename, 'r') as f:
         
-        if Npart[ptype] == 0: # No particles of this type in this subfile, hence no datasets either
-            dtypes = {"POS ": np.dtype((np.float64,3)), "VEL ": np.dtype((np.float64,3)), "MASS": np.float64, "ID  ": np.uint64}
-            array = np.zeros(0, dtype=dtypes[block])
-        elif '%s%s'%(prefix,suffix) not in f:
-            if block=="MASS" and Masses[ptype] != 0.0:
-                array = np.ones(Npart[ptype], np.float64)*Masses[ptype]/unit_fac
+            if Npart[ptype] == 0: # No particles of this type in this subfile, hence no datasets either
+                dtypes = {"POS ": np.dtype((np.float64,3)), "VEL ": np.dtype((np.float64,3)), "MASS": np.float64, "ID  ": np.uint64}
+                array = np.zeros(0, dtype=dtypes[block])
+            elif '%s%s'%(prefix,suffix) not in f:
+                if block=="MASS" and Masses[ptype] != 0.0:
+                    array = np.ones(Npart[ptype], np.float64)*Masses[ptype]/unit_fac
+                else:
+                    raise Exception('Problem reading the block %s'%block)
             else:
-                raise Exception('Problem reading the block %s'%block)
-        else:
-            array = f[prefix+suffix][:]
-            if len(array) != Npart[ptype]: # A single row would be repeated for all particles
-                raise Exception('Block %s has %d rows for %d particles'%(block,len(array),Npart[ptype]))
-            if block!="ID  ":  array = array/unit_fac # IDs are integers and carry no unit
-        f.close()
+                array = f[prefix+suffix][:]
+                if len(array) != Npart[ptype]: # A single row would be repeated for all particles
+                    raise Exception('Block %s has %d rows for %d particles'%(block,len(array),Npart[ptype]))
+                if block!="ID  ":  array = array/unit_fac # IDs are integers and carry no unit
 
         if block=="VEL ":  array *= np.sqrt(head.time) # To make sure we move from UnitVelocity a**0.5 to UnitVelocity
         if block=="POS " and array.dtype==np.float64:
-- 
2.43.0


From 95c09705cba960bcd1ea7a052dfb4e6bbd3b2853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:48 +0000
Subject: [PATCH 49/52] fix: curves reaching beyond R200 were compared without
 their outermost radius, or at other radii, for rounding

---
 cosmic_profiles/common/cosmo_tools.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cosmic_profiles/common/cosmo_tools.py b/cosmic_profiles/common/cosmo_tools.py
index dfeb811..23afda0 100644
--- a/cosmic_profiles/common/cosmo_tools.py
+++ b/cosmic_profiles/common/cosmo_tools.py
@@ -109,19 +109,21 @@ def chiSquareToIShapeCurve(d_cdm, param_interest_cdm, d_fdm, param_interest_fdm,
     :return: chi-square, p-value, degrees of freedom
     :rtype: float, float, int"""
     R = np.logspace(D_LOGSTART,D_LOGEND,D_BINS+1)
+    tol = 1e-6 # Radii on the grid may exceed their nominal value by rounding
+    i_r200 = int(D_LOGEND/((D_LOGEND-D_LOGSTART)/D_BINS)+tol) # Number of radii beyond R200
     y_cdm = [[] for i in range(D_BINS+1)]
     for obj in range(len(param_interest_cdm)):
         for rad in range(D_BINS+1):
-            closest_idx = (np.abs(R - d_cdm[obj][rad]/d_cdm[obj][-int(D_LOGEND/((D_LOGEND-D_LOGSTART)/D_BINS))-1])).argmin() # Determine which point in R is closest
-            if isnan(param_interest_cdm[obj][rad]) or np.log10(d_cdm[obj][rad]/d_cdm[obj][-int(D_LOGEND/((D_LOGEND-D_LOGSTART)/D_BINS))-1]) > D_LOGEND:
+            closest_idx = (np.abs(R - d_cdm[obj][rad]/d_cdm[obj][-i_r200-1])).argmin() # Determine which point in R is closest
+            if isnan(param_interest_cdm[obj][rad]) or np.log10(d_cdm[obj][rad]/d_cdm[obj][-i_r200-1]) > D_LOGEND+tol:
                 continue
             else:
                 y_cdm[closest_idx].append(param_interest_cdm[obj][rad])
     y_fdm = [[] for i in range(D_BINS+1)]
     for obj in range(len(param_interest_fdm)):
         for rad in range(D_BINS+1):
-            closest_idx = (np.abs(R - d_fdm[obj][rad]/d_fdm[obj][-int(D_LOGEND/((D_LOGEND-D_LOGSTART)/D_BINS))-1])).argmin() # Determine which point in R is closest
-            if isnan(param_interest_fdm[obj][rad]) or np.log10(d_fdm[obj][rad]/d_fdm[obj][-int(D_LOGEND/((D_LOGEND-D_LOGSTART)/D_BINS))-1]) > D_LOGEND:
+            closest_idx = (np.abs(R - d_fdm[obj][rad]/d_fdm[obj][-i_r200-1])).argmin() # Determine which point in R is closest
+            if isnan(param_interest_fdm[obj][rad]) or np.log10(d_fdm[obj][rad]/d_fdm[obj][-i_r200-1]) > D_LOGEND+tol:
                 continue
             else:
                 y_fdm[closest_idx].append(param_interest_fdm[obj][rad])
-- 
2.43.0


From dc946fecf6381465018e7d895d8a82ac1974b604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:35 +0000
Subject: [PATCH 50/52] fix: files read after a damaged group file were blamed
 for it

---
 cosmic_profiles/gadget/read_fof.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 901f364..b4279cd 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -87,6 +87,7 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
                     count_sh += g['Subhalo/SubhaloLenType'].shape[0]
             except Exception as e:
                 error = e
+                break
             finally:
                 if g is not None:
                     g.close()
-- 
2.43.0


From ee7a38b73d14d0d575394dffec1e8758b71063ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:11 +0000
Subject: [PATCH 51/52] fix: cached functions saw empty arrays as arrays of
 doubles, so that a group catalogue without subhalos was refused

---
 cosmic_profiles/common/caching.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/common/caching.py b/cosmic_profiles/common/caching.py
index 4781ba1..9392b08 100644
--- a/cosmic_profiles/common/caching.py
+++ b/cosmic_profiles/common/caching.py
@@ -270,12 +270,12 @@ def np_cache_factory(nb_arrs, nb_lists):
         
         GB = 1024**3 # in bytes
         @lru_cache(maxsize = config.CACHE_MAXSIZE, use_memory_up_to=(config.GBs * GB))
-        def cached_wrapper(*args_cached, dims):
+        def cached_wrapper(*args_cached, dims, dtypes):
             args_l = []
             for arg in args_cached:
                 args_l.append(arg)
             for arr_nb in range(nb_arrs):
-                args_l[arr_nb] = np.array(args_l[arr_nb]).reshape(dims[arr_nb])
+                args_l[arr_nb] = np.array(args_l[arr_nb], dtype = dtypes[arr_nb]).reshape(dims[arr_nb]) # An empty tuple does not tell the type
             for list_nb in np.arange(nb_arrs, nb_arrs + nb_lists):
                 args_l[list_nb] = [list(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))]
             return function(*args_l)
@@ -284,16 +284,18 @@ def np_cache_factory(nb_arrs, nb_lists):
         def wrapper(*args):
             args_l = []
             dims = []
+            dtypes = []
             for arg in args:
                 args_l.append(arg)
             for arr_nb in range(nb_arrs):
                 dims.append(args_l[arr_nb].shape)
+                dtypes.append(args_l[arr_nb].dtype)
                 args_l[arr_nb] = tuple(args_l[arr_nb].flatten())
             for list_nb in np.arange(nb_arrs, nb_arrs + nb_lists):
                 args_l[list_nb] = tuple([tuple(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))])
             dims = tuple(dims)
             args_l = tuple(args_l)
-            return cached_wrapper(*args_l, dims=dims)
+            return cached_wrapper(*args_l, dims=dims, dtypes=tuple(dtypes))
     
         # Copy lru_cache attributes over too
         wrapper.cache_info = cached_wrapper.cache_info
-- 
2.43.0


From 05a5b7a4c9009dab7cda953f690efdf922622e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:54 +0000
Subject: [PATCH 52/52] fix: kernel-based density profiles failed for objects
 with a particle at their center

---
 cosmic_profiles/dens_profs/dens_profs_algos.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index 64879e3..e991db9 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -277,6 +277,8 @@ def calcDensProfsKernelBased(double[:,:] xyz, double[:] masses, double[:] r200s,
         hs = 0.005*r200s[p]*(dists.base/(0.1*r200s[p]))**(0.5)
         for r_idx in prange(r_res, schedule = 'dynamic', nogil = True):
             for n in range(obj_size[p]):
+                if hs[n] == 0.0: # A particle at the center has no extent, and does not contribute at any other radius
+                    continue
                 dens_profs[p][r_idx] += m_obj[n]*CythonHelpers.calcKTilde(r_over_r200[r_idx]*r200s[p], dists[n], hs[n])/(hs[n]**3)
     del obj_size; del idx_cat; del shell; del xyz_obj; del m_obj; del centers
     del dists; del hs
-- 
2.43.0

