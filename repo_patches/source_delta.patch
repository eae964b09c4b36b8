From ac55b93038fef06e6fb4ec157af2cf38673d2000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:05 +0000
Subject: [PATCH 01/50] fix: release the scratch blocks grad, tikh, gridrec,
 project2 and project3 leaked on every call

---
 source/libtomo/gridrec/gridrec.c | 1 +
 source/libtomo/recon/grad.c      | 1 +
 source/libtomo/recon/project.c   | 4 ++++
 source/libtomo/recon/tikh.c      | 1 +
 4 files changed, 7 insertions(+)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index a4cd574..e672c34 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -554,6 +554,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
     free_vector_c(filphase);
     free_vector_f(winv);
     free_vector_f(work);
+    free_vector_f(work2);
     free_matrix_c(H);
     free_vector_f(J_z);
     free_vector_f(P_z);
diff --git a/source/libtomo/recon/grad.c b/source/libtomo/recon/grad.c
index 4c44b10..18d6666 100755
--- a/source/libtomo/recon/grad.c
+++ b/source/libtomo/recon/grad.c
@@ -254,6 +254,7 @@ grad(const float* data, int dy, int dt, int dx, const float* center, const float
     free(sum_dist);
     free(prox1);
     free(recon0);
+    free(lambda);
     free(grad0);
     free(grad);
 }
diff --git a/source/libtomo/recon/project.c b/source/libtomo/recon/project.c
index aa38e49..a7a0687 100755
--- a/source/libtomo/recon/project.c
+++ b/source/libtomo/recon/project.c
@@ -239,6 +239,8 @@ project2(const float* objx, const float* objy, int oy, int ox, int oz, float* da
     free(coory);
     free(dist);
     free(indi);
+    free(indx);
+    free(indy);
 }
 
 void
@@ -344,4 +346,6 @@ project3(const float* objx, const float* objy, const float* objz, int oy, int ox
     free(coory);
     free(dist);
     free(indi);
+    free(indx);
+    free(indy);
 }
diff --git a/source/libtomo/recon/tikh.c b/source/libtomo/recon/tikh.c
index f62050b..3f595f1 100755
--- a/source/libtomo/recon/tikh.c
+++ b/source/libtomo/recon/tikh.c
@@ -261,6 +261,7 @@ tikh(const float* data, int dy, int dt, int dx, const float* center, const float
     free(sum_dist);
     free(prox1);
     free(recon0);
+    free(lambda);
     free(grad0);
     free(grad);
 }
-- 
2.43.0


From 0514bfe583bc9881af967e8ee7ca6b7a1144aaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:28 +0000
Subject: [PATCH 02/50] fix: vector2 and vector3 sweep each dataset with its
 own centers and angles

---
 source/libtomo/recon/vector.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/libtomo/recon/vector.c b/source/libtomo/recon/vector.c
index daa8b94..96dc917 100755
--- a/source/libtomo/recon/vector.c
+++ b/source/libtomo/recon/vector.c
@@ -353,7 +353,7 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center2[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -366,7 +366,7 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta2[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
@@ -623,7 +623,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center2[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -636,7 +636,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta2[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
@@ -729,7 +729,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center3[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -742,7 +742,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta3[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
-- 
2.43.0


From e66e95a30e55ac4de9db04e2c19b93c272eb8902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:47 +0000
Subject: [PATCH 03/50] fix: keep stripes_detect3d neighbours inside volumes
 thinner than the stencil

---
 source/libtomo/prep/stripes_detect3d.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/libtomo/prep/stripes_detect3d.c b/source/libtomo/prep/stripes_detect3d.c
index b51ec83..8e36565 100644
--- a/source/libtomo/prep/stripes_detect3d.c
+++ b/source/libtomo/prep/stripes_detect3d.c
@@ -89,6 +89,8 @@ gradient3D_local(const float* input, float* output, long dimX, long dimY, long d
                     i1 = i + step_size;
                     if(i1 >= dimX)
                         i1 = i - step_size;
+                    if(i1 < 0)
+                        i1 = i;
                     output[index] =
                         input[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + i1)] -
                         input[index];
@@ -98,6 +100,8 @@ gradient3D_local(const float* input, float* output, long dimX, long dimY, long d
                     j1 = j + step_size;
                     if(j1 >= dimY)
                         j1 = j - step_size;
+                    if(j1 < 0)
+                        j1 = j;
                     output[index] =
                         input[(size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i)] -
                         input[index];
@@ -107,6 +111,8 @@ gradient3D_local(const float* input, float* output, long dimX, long dimY, long d
                     k1 = k + step_size;
                     if(k1 >= dimZ)
                         k1 = k - step_size;
+                    if(k1 < 0)
+                        k1 = k;
                     output[index] =
                         input[(size_t) (dimX * dimY * k1) + (size_t) (j * dimX + i)] -
                         input[index];
@@ -277,15 +283,15 @@ mean_stride3d(const float* input, float* output, long i, long j, long k, long di
     k2 = k + 1;
 
     if(i1 < 0)
-        i1 = i2;
+        i1 = (i2 < dimX) ? i2 : i;
     if(i2 >= dimX)
         i2 = i1;
     if(j1 < 0)
-        j1 = j2;
+        j1 = (j2 < dimY) ? j2 : j;
     if(j2 >= dimY)
         j2 = j1;
     if(k1 < 0)
-        k1 = k2;
+        k1 = (k2 < dimZ) ? k2 : k;
     if(k2 >= dimZ)
         k2 = k1;
 
-- 
2.43.0


From cb818a52531d5b574ae5b8b88a5587dcb23e23cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:58 +0000
Subject: [PATCH 04/50] fix: vector2 and vector3 reject data whose volume is
 not a cube

---
 source/tomopy/recon/vector.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/tomopy/recon/vector.py b/source/tomopy/recon/vector.py
index 5775dcc..eeaaf4e 100644
--- a/source/tomopy/recon/vector.py
+++ b/source/tomopy/recon/vector.py
@@ -66,6 +66,20 @@ __docformat__ = 'restructuredtext en'
 __all__ = ['vector', 'vector2', 'vector3']
 
 
+def _check_cubic(*tomos):
+    """Raise unless all the (initialized) data sets describe the same cube.
+
+    The rotation axes of the data sets differ, so the one volume they share is
+    sliced along each of its axes: all its sides must have the same length.
+    """
+    if tomos[0].shape[0] != tomos[0].shape[2]:
+        raise ValueError('The number of slices and of detector columns must '
+                         'be equal, got %d and %d.'
+                         % (tomos[0].shape[0], tomos[0].shape[2]))
+    if any(tomo.shape != tomos[0].shape for tomo in tomos):
+        raise ValueError('All data sets must have the same shape.')
+
+
 def vector(tomo, theta, center=None, num_iter=1):
     tomo = dtype.as_float32(tomo)
     theta = dtype.as_float32(theta)
@@ -93,6 +107,7 @@ def vector2(tomo1, tomo2, theta1, theta2, center1=None, center2=None, num_iter=1
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
     tomo2 = init_tomo(tomo2, sinogram_order=False, sharedmem=False)
+    _check_cubic(tomo1, tomo2)
 
     recon_shape = (tomo1.shape[0], tomo1.shape[2], tomo1.shape[2])
     recon1 = np.zeros(recon_shape, dtype=np.float32)
@@ -119,6 +134,7 @@ def vector3(tomo1, tomo2, tomo3, theta1, theta2, theta3, center1=None, center2=N
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
     tomo2 = init_tomo(tomo2, sinogram_order=False, sharedmem=False)
     tomo3 = init_tomo(tomo3, sinogram_order=False, sharedmem=False)
+    _check_cubic(tomo1, tomo2, tomo3)
 
     recon_shape = (tomo1.shape[0], tomo1.shape[2], tomo1.shape[2])
     recon1 = np.zeros(recon_shape, dtype=np.float32)
-- 
2.43.0


From 5ea2c9b5e3a1b8d1e124f606a411c9d0b3e072b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:10 +0000
Subject: [PATCH 05/50] fix: hand native code contiguous float32/int32 angles,
 centers, orders and objects

---
 source/tomopy/recon/algorithm.py | 10 ++++++++--
 source/tomopy/recon/vector.py    | 12 ++++++------
 source/tomopy/sim/project.py     | 18 +++++++++---------
 3 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 2a73132..e52517d 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -297,7 +297,13 @@ def recon(tomo,
                 # Make sure reg_par and filter_par is float32.
                 if key == 'reg_par' or key == 'filter_par' or key == 'reg_data':
                     if not isinstance(kwargs[key], np.float32):
-                        kwargs[key] = np.array(value, dtype='float32')
+                        kwargs[key] = np.array(value, dtype='float32',
+                                               order='C')
+
+                # Native code walks the projection order as packed integers.
+                if key == 'ind_block':
+                    kwargs[key] = np.require(value, dtype=np.int32,
+                                             requirements="AC")
 
         # Set kwarg defaults.
         for kw in allowed_kwargs[algorithm]:
@@ -469,7 +475,7 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
 
 
 def _get_algorithm_args(theta):
-    theta = dtype.as_float32(theta)
+    theta = np.require(theta, dtype=np.float32, requirements="AC")
     return (theta, )
 
 
diff --git a/source/tomopy/recon/vector.py b/source/tomopy/recon/vector.py
index eeaaf4e..1e194b1 100644
--- a/source/tomopy/recon/vector.py
+++ b/source/tomopy/recon/vector.py
@@ -82,7 +82,7 @@ def _check_cubic(*tomos):
 
 def vector(tomo, theta, center=None, num_iter=1):
     tomo = dtype.as_float32(tomo)
-    theta = dtype.as_float32(theta)
+    theta = np.require(theta, dtype=np.float32, requirements="AC")
 
     # Initialize tomography data.
     tomo = init_tomo(tomo, sinogram_order=False, sharedmem=False)
@@ -101,8 +101,8 @@ def vector(tomo, theta, center=None, num_iter=1):
 def vector2(tomo1, tomo2, theta1, theta2, center1=None, center2=None, num_iter=1, axis1=1, axis2=2):
     tomo1 = dtype.as_float32(tomo1)
     tomo2 = dtype.as_float32(tomo2)
-    theta1 = dtype.as_float32(theta1)
-    theta2 = dtype.as_float32(theta2)
+    theta1 = np.require(theta1, dtype=np.float32, requirements="AC")
+    theta2 = np.require(theta2, dtype=np.float32, requirements="AC")
 
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
@@ -126,9 +126,9 @@ def vector3(tomo1, tomo2, tomo3, theta1, theta2, theta3, center1=None, center2=N
     tomo1 = dtype.as_float32(tomo1)
     tomo2 = dtype.as_float32(tomo2)
     tomo3 = dtype.as_float32(tomo3)
-    theta1 = dtype.as_float32(theta1)
-    theta2 = dtype.as_float32(theta2)
-    theta3 = dtype.as_float32(theta3)
+    theta1 = np.require(theta1, dtype=np.float32, requirements="AC")
+    theta2 = np.require(theta2, dtype=np.float32, requirements="AC")
+    theta3 = np.require(theta3, dtype=np.float32, requirements="AC")
 
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index 765051f..82d11d4 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -299,7 +299,7 @@ def project(
         3D tomographic data.
     """
     obj = dtype.as_float32(obj)
-    theta = dtype.as_float32(theta)
+    theta = np.require(theta, dtype=np.float32, requirements="AC")
 
     # Estimate data dimensions.
     oy, ox, oz = obj.shape
@@ -367,9 +367,9 @@ def project2(
     ndarray
         3D tomographic data.
     """
-    objx = dtype.as_float32(objx)
-    objy = dtype.as_float32(objy)
-    theta = dtype.as_float32(theta)
+    objx = np.require(objx, dtype=np.float32, requirements="AC")
+    objy = np.require(objy, dtype=np.float32, requirements="AC")
+    theta = np.require(theta, dtype=np.float32, requirements="AC")
 
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
@@ -433,10 +433,10 @@ def project3(
     ndarray
         3D tomographic data.
     """
-    objx = dtype.as_float32(objx)
-    objy = dtype.as_float32(objy)
-    objz = dtype.as_float32(objz)
-    theta = dtype.as_float32(theta)
+    objx = np.require(objx, dtype=np.float32, requirements="AC")
+    objy = np.require(objy, dtype=np.float32, requirements="AC")
+    objz = np.require(objz, dtype=np.float32, requirements="AC")
+    theta = np.require(theta, dtype=np.float32, requirements="AC")
 
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
@@ -472,7 +472,7 @@ def get_center(shape, center):
         center = np.ones(shape[0], dtype='float32') * (shape[2] / 2.)
     elif np.array(center).size == 1:
         center = np.ones(shape[0], dtype='float32') * center
-    return dtype.as_float32(center)
+    return np.require(center, dtype=np.float32, requirements="AC")
 
 
 def fan_to_para(tomo, dist, geom):
-- 
2.43.0


From 0b1fc241d5a58c198abba48eba1be3c92f33acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:10 +0000
Subject: [PATCH 06/50] fix: recon no longer extends the module's table of
 allowed keywords on every call

---
 source/tomopy/recon/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index e52517d..166379f 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -273,7 +273,7 @@ def recon(tomo,
 
     if isinstance(algorithm, str):
 
-        allowed_kwargs = copy.copy(allowed_recon_kwargs)
+        allowed_kwargs = copy.deepcopy(allowed_recon_kwargs)
         if algorithm in allowed_accelerated_kwargs:
             allowed_kwargs[algorithm] += allowed_accelerated_kwargs[algorithm]
 
-- 
2.43.0


From becd84fa342c3bebf0c7d31e9bd451bfb5d4ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:34 +0000
Subject: [PATCH 07/50] fix: restore TOMOPY_PYTHON_THREADS when a
 reconstruction raises

---
 source/tomopy/recon/algorithm.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 166379f..f7ef76d 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -430,6 +430,21 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     # this is used internally to prevent oversubscription
     os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(ncore)
 
+    try:
+        _run_slices(tomo, center, recon, algorithm, args, kwargs, ncore,
+                    use_slcs)
+    finally:
+        if pythreads is not None:
+            # reset to default
+            os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(pythreads)
+        elif os.environ.get("TOMOPY_PYTHON_THREADS"):
+            # if no default set, then
+            del os.environ["TOMOPY_PYTHON_THREADS"]
+
+    return recon
+
+
+def _run_slices(tomo, center, recon, algorithm, args, kwargs, ncore, use_slcs):
     if ncore == 1:
         for slc in use_slcs:
             # run in this thread (useful for debugging)
@@ -464,16 +479,6 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
                     raise f.exception()
 
 
-    if pythreads is not None:
-        # reset to default
-        os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(pythreads)
-    elif os.environ.get("TOMOPY_PYTHON_THREADS"):
-        # if no default set, then
-        del os.environ["TOMOPY_PYTHON_THREADS"]
-
-    return recon
-
-
 def _get_algorithm_args(theta):
     theta = np.require(theta, dtype=np.float32, requirements="AC")
     return (theta, )
-- 
2.43.0


From 8bee2707051a975d6f05e0b558fc85d084554b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:20 +0000
Subject: [PATCH 08/50] fix: recon rejects init_recon and reg_data whose shape
 is not that of the volume

---
 source/tomopy/recon/algorithm.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index f7ef76d..f8767d3 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -329,6 +329,15 @@ def recon(tomo,
 
     # Initialize reconstruction.
     recon_shape = (tomo.shape[0], kwargs['num_gridx'], kwargs['num_gridy'])
+    if init_recon is not None and np.shape(init_recon) != recon_shape:
+        raise ValueError('The shape of init_recon must be %s.' %
+                         (recon_shape, ))
+    if algorithm == 'tikh':
+        if kwargs['reg_data'] is kwargs_defaults['reg_data']:
+            kwargs['reg_data'] = np.zeros(recon_shape, dtype='float32')
+        elif kwargs['reg_data'].shape != recon_shape:
+            raise ValueError('The shape of reg_data must be %s.' %
+                             (recon_shape, ))
     if algorithm == 'gridrec':
         recon = _init_recon(recon_shape, init_recon, val=0, sharedmem=False,
                             empty=True)
-- 
2.43.0


From 0807ff73e4c770ccff9750b80cc8e5907a23b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:20 +0000
Subject: [PATCH 09/50] fix: tikh regularizes each group of slices with its own
 part of reg_data

---
 source/tomopy/recon/algorithm.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index f8767d3..27d2279 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -453,11 +453,19 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     return recon
 
 
+def _slice_kwargs(kwargs, slc):
+    # reg_data holds one reference image for each slice
+    if 'reg_data' in kwargs:
+        kwargs = dict(kwargs, reg_data=kwargs['reg_data'][slc])
+    return kwargs
+
+
 def _run_slices(tomo, center, recon, algorithm, args, kwargs, ncore, use_slcs):
     if ncore == 1:
         for slc in use_slcs:
             # run in this thread (useful for debugging)
-            algorithm(tomo[slc], center[slc], recon[slc], *args, **kwargs)
+            algorithm(tomo[slc], center[slc], recon[slc], *args,
+                      **_slice_kwargs(kwargs, slc))
     else:
         # execute recon on ncore processes. Accelerated methods have internal
         # thread-pool and NVIDIA NPP library does not support simulatenously
@@ -469,7 +477,7 @@ def _run_slices(tomo, center, recon, algorithm, args, kwargs, ncore, use_slcs):
                     futures.append(
                         e.submit(_run_accel_algorithm, idx, algorithm,
                                  tomo[slc], center[slc], recon[slc], *args,
-                                 **kwargs))
+                                 **_slice_kwargs(kwargs, slc)))
 
             for f, slc in zip(futures, use_slcs):
                 if f.exception() is not None:
@@ -480,7 +488,8 @@ def _run_slices(tomo, center, recon, algorithm, args, kwargs, ncore, use_slcs):
             with cf.ThreadPoolExecutor(ncore) as e:
                 futures = [
                     e.submit(algorithm, tomo[slc], center[slc], recon[slc],
-                             *args, **kwargs) for slc in use_slcs
+                             *args, **_slice_kwargs(kwargs, slc))
+                    for slc in use_slcs
                 ]
             done, _ = cf.wait(futures, return_when=cf.ALL_COMPLETED)
             for f in done:
-- 
2.43.0


From 2ff6ddaa66970ebaf97b662b8f6b8a0f80cf2c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:20 +0000
Subject: [PATCH 10/50] fix: reg_par and filter_par given as scalars or short
 lists keep the remaining defaults

---
 source/tomopy/recon/algorithm.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 27d2279..d353c81 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -296,9 +296,13 @@ def recon(tomo,
 
                 # Make sure reg_par and filter_par is float32.
                 if key == 'reg_par' or key == 'filter_par' or key == 'reg_data':
-                    if not isinstance(kwargs[key], np.float32):
-                        kwargs[key] = np.array(value, dtype='float32',
-                                               order='C')
+                    kwargs[key] = np.array(value, dtype='float32', order='C')
+
+                # Parameters that are left out keep their default values.
+                if key == 'reg_par' or key == 'filter_par':
+                    kwargs[key] = np.append(
+                        kwargs[key],
+                        kwargs_defaults[key][kwargs[key].size:])
 
                 # Native code walks the projection order as packed integers.
                 if key == 'ind_block':
-- 
2.43.0


From d85fb7f960850b9a09263e1282a647c4e6a26144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:35 +0000
Subject: [PATCH 11/50] fix: recon with nchunk=0 passes each center as an array

---
 source/tomopy/recon/algorithm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index d353c81..d9ee277 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -412,6 +412,10 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     axis_size = recon.shape[0]
     ncore, slcs = mproc.get_ncore_slices(axis_size, ncore, nchunk)
 
+    if nchunk == 0:
+        # slices lose their first axis, their centers remain arrays
+        center = center.reshape(-1, 1)
+
     if len(slcs) < ncore:
         ncore = int(len(slcs))
 
-- 
2.43.0


From 9921990ffcadda1a564b4f7e7e53d2b5a0cafe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:35 +0000
Subject: [PATCH 12/50] fix: distribute_jobs works on copies of shared-memory
 inputs instead of overwriting them

---
 source/tomopy/util/mproc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index f9b5672..8911f51 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -257,7 +257,8 @@ def distribute_jobs(arr,
     shared_out = None
     shared_out_shape = None
     for arr in arrs:
-        arr_shared = as_sharedmem(arr)
+        # always copy, the jobs write to these arrays
+        arr_shared = as_sharedmem(arr, copy=True)
         shared_arrays.append(get_shared_mem(arr_shared))
         shared_shape.append(arr.shape)
         if out is not None and np.may_share_memory(arr, out) and \
@@ -274,7 +275,8 @@ def distribute_jobs(arr,
     else:
         shared_out_shape = out.shape
         shared_out_type = out.dtype
-        shared_out = as_sharedmem(out)
+        if shared_out is None:
+            shared_out = as_sharedmem(out)
 
     # Set up queue
     man = mp.Manager()
-- 
2.43.0


From f8a8933936764a602a8f9b63c0f933a6c745f84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:02 +0000
Subject: [PATCH 13/50] fix: distribute_jobs reads each input array with its
 own dtype

---
 source/tomopy/util/mproc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index 8911f51..fa9d847 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -290,13 +290,14 @@ def distribute_jobs(arr,
         else:
             map_args.append((func, args, kwargs, i, axis))
 
-    init_shared(shared_arrays, shared_out, arr.dtype, shared_shape,
+    intypes = [arr.dtype for arr in arrs]
+    init_shared(shared_arrays, shared_out, intypes, shared_shape,
                 shared_out_type, shared_out_shape, queue=queue, on_host=True)
 
     if ncore > 1 and DEBUG is False:
         with closing(mp.Pool(processes=ncore,
                              initializer=init_shared,
-                             initargs=(shared_arrays, shared_out, arr.dtype,
+                             initargs=(shared_arrays, shared_out, intypes,
                                        shared_shape, shared_out_type,
                                        shared_out_shape, queue))) as p:
             if p._pool:
@@ -376,7 +377,7 @@ def _arg_parser(params):
     global INSHAPE
     global OUTSHAPE
     func, args, kwargs, slc, axis = params
-    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE, INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
+    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE[idx], INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
     # NOTE: will only copy if actually different arrays
     try:
         result = func(*func_args, **kwargs)
-- 
2.43.0


From 699bea99a1bc71b87edfc6db9ff3998f20bc8427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:16 +0000
Subject: [PATCH 14/50] fix: distribute_jobs drops its shared arrays when a job
 raises

---
 source/tomopy/util/mproc.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index fa9d847..1ec6fe1 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -294,6 +294,18 @@ def distribute_jobs(arr,
     init_shared(shared_arrays, shared_out, intypes, shared_shape,
                 shared_out_type, shared_out_shape, queue=queue, on_host=True)
 
+    try:
+        _run_jobs(shared_arrays, shared_out, intypes, shared_shape,
+                  shared_out_type, shared_out_shape, queue, map_args, ncore)
+        # NOTE: will only copy if out wasn't sharedmem
+        out[:] = to_numpy_array(shared_out, shared_out_type, shared_out_shape)
+    finally:
+        clear_shared()
+    return out
+
+
+def _run_jobs(shared_arrays, shared_out, intypes, shared_shape,
+              shared_out_type, shared_out_shape, queue, map_args, ncore):
     if ncore > 1 and DEBUG is False:
         with closing(mp.Pool(processes=ncore,
                              initializer=init_shared,
@@ -328,11 +340,6 @@ def distribute_jobs(arr,
         for m in map_args:
             _arg_parser(m)
 
-    # NOTE: will only copy if out wasn't sharedmem
-    out[:] = to_numpy_array(shared_out, shared_out_type, shared_out_shape)
-    clear_shared()
-    return out
-
 
 def init_shared(
         shared_arrays, shared_out, intype, inshape,
-- 
2.43.0


From 168f9e9e9894627ef2790633fc4ea4af2f9b3e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 15/50] fix: median_filter3d and remove_outlier3d pick the
 native routine by the converted data and write packed output

---
 source/tomopy/misc/corr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 06cc0ae..bd99844 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -385,7 +385,7 @@ def median_filter3d(arr, size=3, ncore=None):
     input_type = arr.dtype
     if (input_type != "float32") and (input_type != "uint16"):
         arr = dtype.as_float32(arr)  # silent convertion to float32 data type
-    out = np.empty_like(arr)
+    out = np.empty_like(arr, order="C")
     dif = 0.0  # set to 0 to avoid selective filtering
 
     # convert the full kernel size (odd int) to a half size as the C function requires it
@@ -399,7 +399,7 @@ def median_filter3d(arr, size=3, ncore=None):
         raise ValueError("The input array must be a 3D array")
 
     # perform full 3D filtering
-    if input_type == "float32":
+    if arr.dtype == "float32":
         extern.c_median_filt3d_float32(
             np.ascontiguousarray(arr), out, kernel_half_size, dif, ncore, dx, dy, dz
         )
@@ -460,7 +460,7 @@ def remove_outlier3d(arr, dif, size=3, ncore=None):
         raise ValueError("The input array must be a 3D array")
 
     # perform full 3D filtering
-    if input_type == "float32":
+    if arr.dtype == "float32":
         extern.c_median_filt3d_float32(
             np.ascontiguousarray(arr), out, kernel_half_size, dif, ncore, dx, dy, dz
         )
-- 
2.43.0


From d488ae09069eef19abf58a5022bbb1c307135e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 16/50] fix: sobel_filter and remove_outlier1d filter the data
 instead of returning uninitialized memory

---
 source/tomopy/misc/corr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index bd99844..bcfccc1 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -499,7 +499,8 @@ def sobel_filter(arr, axis=0, ncore=None):
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(filters.sobel, arr[slc], output=out[slc])
+            e.submit(scipy.ndimage.sobel, arr[tuple(slc)],
+                     output=out[tuple(slc)])
     return out
 
 
@@ -657,9 +658,9 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
             slc[lar_axis] = chnk_slices[i]
             e.submit(
                 scipy.ndimage.median_filter,
-                arr[slc],
+                arr[tuple(slc)],
                 size=filt_size,
-                output=tmp[slc],
+                output=tmp[tuple(slc)],
                 mode="mirror",
             )
 
-- 
2.43.0


From e7948d4181e5a215e6696a637311cbf006e5d62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 17/50] fix: report errors of the threaded filters instead of
 returning partial results

---
 source/tomopy/misc/corr.py | 40 +++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index bcfccc1..c60b7bc 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -150,17 +150,20 @@ def gaussian_filter(arr, sigma=3, order=0, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.gaussian_filter,
                 arr[tuple(slc)],
                 sigma,
                 order=order,
                 output=out[tuple(slc)],
-            )
+            ))
+    for f in futures:
+        f.result()
     return out
 
 
@@ -190,16 +193,19 @@ def median_filter(arr, size=3, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.median_filter,
                 arr[tuple(slc)],
                 size=(size, size),
                 output=out[tuple(slc)],
-            )
+            ))
+    for f in futures:
+        f.result()
     return out
 
 
@@ -495,12 +501,15 @@ def sobel_filter(arr, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(scipy.ndimage.sobel, arr[tuple(slc)],
-                     output=out[tuple(slc)])
+            futures.append(e.submit(scipy.ndimage.sobel, arr[tuple(slc)],
+                     output=out[tuple(slc)]))
+    for f in futures:
+        f.result()
     return out
 
 
@@ -592,16 +601,19 @@ def remove_outlier(arr, dif, size=3, axis=0, ncore=None, out=None):
     filt_size = [size] * arr.ndim
     filt_size[axis] = 1
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(ncore):
             slc[axis] = chnk_slices[i]
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.median_filter,
                 arr[tuple(slc)],
                 size=filt_size,
                 output=tmp[tuple(slc)],
-            )
+            ))
+    for f in futures:
+        f.result()
 
     arr = dtype.as_float32(arr)
     tmp = dtype.as_float32(tmp)
@@ -652,17 +664,20 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
     filt_size = [1] * arr.ndim
     filt_size[axis] = size
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(ncore):
             slc[lar_axis] = chnk_slices[i]
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.median_filter,
                 arr[tuple(slc)],
                 size=filt_size,
                 output=tmp[tuple(slc)],
                 mode="mirror",
-            )
+            ))
+    for f in futures:
+        f.result()
 
     with mproc.set_numexpr_threads(ncore):
         out = ne.evaluate("where(arr-tmp>=dif,tmp,arr)", out=out)
@@ -843,10 +858,13 @@ def remove_ring(
 
     axis_size = rec.shape[0]
     ncore, nchunk = mproc.get_ncore_nchunk(axis_size, ncore, nchunk)
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         for offset in range(0, axis_size, nchunk):
             slc = np.s_[offset : offset + nchunk]
-            e.submit(extern.c_remove_ring, out[slc], *args)
+            futures.append(e.submit(extern.c_remove_ring, out[slc], *args))
+    for f in futures:
+        f.result()
     return out
 
 
-- 
2.43.0


From 41ec991436e57af021c44e979756c9abc7c52e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:06 +0000
Subject: [PATCH 18/50] fix: remove_ring filters rec into out whatever the type
 and layout of out

---
 source/tomopy/misc/corr.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index c60b7bc..5e5e58e 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -820,10 +820,11 @@ def remove_ring(
 
     rec = dtype.as_float32(rec)
 
-    if out is None:
-        out = rec.copy()
-    else:
-        out = dtype.as_float32(out)
+    # The rings are removed in place from packed float32 data.
+    res = out
+    if out is None or out.dtype != np.float32 or not dtype.is_contiguous(out):
+        res = np.empty(rec.shape, dtype=np.float32)
+    res[:] = rec
 
     dz, dy, dx = rec.shape
 
@@ -862,9 +863,13 @@ def remove_ring(
     with cf.ThreadPoolExecutor(ncore) as e:
         for offset in range(0, axis_size, nchunk):
             slc = np.s_[offset : offset + nchunk]
-            futures.append(e.submit(extern.c_remove_ring, out[slc], *args))
+            futures.append(e.submit(extern.c_remove_ring, res[slc], *args))
     for f in futures:
         f.result()
+    if out is None:
+        return res
+    if res is not out:
+        out[:] = res
     return out
 
 
-- 
2.43.0


From b38e7c77670e6ade949230ea21380465882bafb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:06 +0000
Subject: [PATCH 19/50] fix: the CPU fallbacks of median_filter_cuda and
 remove_outlier_cuda filter along the requested axis

---
 source/tomopy/misc/corr.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 5e5e58e..457a0d2 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -242,10 +242,10 @@ def median_filter_cuda(arr, size=3, axis=0):
 
         winAllow = range(2, 16)
 
-        if axis != 0:
-            arr = np.swapaxes(arr, 0, axis)
-
         if size in winAllow:
+            if axis != 0:
+                arr = np.swapaxes(arr, 0, axis)
+
             loffset = int(size / 2)
             roffset = int((size - 1) / 2)
             prjsize = arr.shape[0]
@@ -725,10 +725,10 @@ def remove_outlier_cuda(arr, dif, size=3, axis=0):
 
         winAllow = range(2, 16)
 
-        if axis != 0:
-            arr = np.swapaxes(arr, 0, axis)
-
         if size in winAllow:
+            if axis != 0:
+                arr = np.swapaxes(arr, 0, axis)
+
             prjsize = arr.shape[0]
             loffset = int(size / 2)
             roffset = int((size - 1) / 2)
@@ -755,11 +755,11 @@ def remove_outlier_cuda(arr, dif, size=3, axis=0):
                 out = np.swapaxes(out, 0, axis)
         else:
             warnings.warn("Window size not support, using cpu outlier removal")
-            out = remove_outlier(arr, dif, size)
+            out = remove_outlier(arr, dif, size, axis)
 
     except ImportError:
         warnings.warn("The tomocuda is not support, using cpu outlier removal")
-        out = remove_outlier(arr, dif, size)
+        out = remove_outlier(arr, dif, size, axis)
 
     return out
 
-- 
2.43.0


From fce7fed955eba5250116b030fc45ddb5539927fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:18 +0000
Subject: [PATCH 20/50] fix: corrections, noise models and alignment return new
 arrays instead of modifying float32 inputs

---
 source/tomopy/misc/corr.py      | 7 ++++---
 source/tomopy/prep/alignment.py | 3 +--
 source/tomopy/sim/project.py    | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 457a0d2..599c9e6 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -108,6 +108,7 @@ def adjust_range(arr, dmin=None, dmax=None):
         dmax = np.max(arr)
     if dmin is None:
         dmin = np.min(arr)
+    arr = np.array(arr)
     if dmax < np.max(arr):
         arr[arr > dmax] = dmax
     if dmin > np.min(arr):
@@ -535,7 +536,7 @@ def remove_nan(arr, val=0.0, ncore=None):
     val = np.float32(val)
 
     with mproc.set_numexpr_threads(ncore):
-        ne.evaluate("where(arr!=arr, val, arr)", out=arr)
+        arr = ne.evaluate("where(arr!=arr, val, arr)")
 
     return arr
 
@@ -562,7 +563,7 @@ def remove_neg(arr, val=0.0, ncore=None):
     val = np.float32(val)
 
     with mproc.set_numexpr_threads(ncore):
-        ne.evaluate("where(arr<0, val, arr)", out=arr)
+        arr = ne.evaluate("where(arr<0, val, arr)")
     return arr
 
 
@@ -901,7 +902,7 @@ def circ_mask(arr, axis, ratio=1, val=0.0, ncore=None):
     mask = _get_mask(dy, dz, ratio)
 
     with mproc.set_numexpr_threads(ncore):
-        ne.evaluate("where(mask, _arr, val)", out=_arr)
+        _arr = ne.evaluate("where(mask, _arr, val)")
 
     return _arr.swapaxes(0, axis)
 
diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index abc70a9..4e88754 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -475,8 +475,7 @@ def scale(prj):
         Scaled 3D stack of projection images.
     """
     scl = max(abs(prj.max()), abs(prj.min()))
-    prj /= scl
-    return prj, scl
+    return prj / scl, scl
 
 
 def blur_edges(prj, low=0, high=0.8):
diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index 82d11d4..f7c04d2 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -125,7 +125,7 @@ def add_gaussian(tomo, mean=0, std=None):
     ndarray
         3D tomographic data after Gaussian noise added.
     """
-    tomo = dtype.as_ndarray(tomo)
+    tomo = np.array(tomo)
     if std is None:
         std = tomo.max() * 0.05
     dx, dy, dz = tomo.shape
@@ -199,7 +199,7 @@ def add_salt_pepper(tomo, prob=0.01, val=None):
     ndarray
         3D tomographic data after salt and pepper noise added.
     """
-    tomo = dtype.as_ndarray(tomo)
+    tomo = np.array(tomo)
     dx, dy, dz = tomo.shape
     ind = np.random.rand(dx, dy, dz) < prob
     if val is None:
-- 
2.43.0


From 65d7bf52b9d30bfc7ff989e359fc6a421907597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:09 +0000
Subject: [PATCH 21/50] fix: normalize_nf accepts averaging='median'

---
 source/tomopy/prep/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index c75e513..e2fae66 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -302,7 +302,7 @@ def normalize_nf(
     if averaging == 'mean':
         dark = np.mean(dark, axis=0, dtype=np.float32)
     elif averaging == 'median':
-        dark = np.median(dark, axis=0, dtype=np.float32)
+        dark = np.median(dark, axis=0)
     else:
         raise ValueError(
             f"'averaging' must be 'mean' or 'median' not {averaging}")
-- 
2.43.0


From 4fa4168df01a558d4eb4a722e3a8893637c15e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:09 +0000
Subject: [PATCH 22/50] fix: trim_sinogram slices with integer indices

---
 source/tomopy/misc/morph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 5d7668b..ed9cb2c 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -285,14 +285,14 @@ def trim_sinogram(data, center, x, y, diameter):
     l1 = center - diameter / 2
     l2 = center - diameter / 2 + rad
 
-    roidata = np.ones((dx, dy, diameter), dtype='float32')
+    roidata = np.ones((dx, dy, int(diameter)), dtype='float32')
 
     delphi = np.pi / dx
     for m in range(dx):
 
         # Calculate start end coordinates for each row of the sinogram.
-        ind1 = np.ceil(np.cos(alpha - m * delphi) * (l2 - l1) + l1)
-        ind2 = np.floor(np.cos(alpha - m * delphi) * (l2 - l1) + l1 + diameter)
+        ind1 = int(np.ceil(np.cos(alpha - m * delphi) * (l2 - l1) + l1))
+        ind2 = int(np.floor(np.cos(alpha - m * delphi) * (l2 - l1) + l1 + diameter))
 
         # Make sure everythin is inside the frame.
         if ind1 < 0:
-- 
2.43.0


From aa80bb4912cddd98efac41618e80bcc6fddc4722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:42 +0000
Subject: [PATCH 23/50] fix: retrieve_phase without padding keeps the
 projection instead of smearing its last row and column

---
 source/tomopy/prep/phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/prep/phase.py b/source/tomopy/prep/phase.py
index e1be769..bf32a5e 100644
--- a/source/tomopy/prep/phase.py
+++ b/source/tomopy/prep/phase.py
@@ -137,9 +137,9 @@ def _retrieve_phase(tomo, phase_filter, px, py, prj, pad):
     for m in range(num_jobs):
         prj[px:dy + px, py:dz + py] = tomo[m]
         prj[:px] = prj[px]
-        prj[-px:] = prj[-px-1]
+        prj[dy + px:] = prj[dy + px - 1]
         prj[:, :py] = prj[:, py][:, np.newaxis]
-        prj[:, -py:] = prj[:, -py-1][:, np.newaxis]
+        prj[:, dz + py:] = prj[:, dz + py - 1][:, np.newaxis]
         fproj = fft2(prj, extra_info=num_jobs)
         fproj *= normalized_phase_filter
         proj = np.real(ifft2(fproj, extra_info=num_jobs, overwrite_input=True))
-- 
2.43.0


From 2de49e935855fe5ba8cd38d130d5afe6da74b0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:42 +0000
Subject: [PATCH 24/50] fix: sino_360_to_180 accepts rotation='right' without
 overlap and rejects unknown rotations

---
 source/tomopy/misc/morph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index ed9cb2c..93e3fa4 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -347,9 +347,11 @@ def sino_360_to_180(data, overlap=0, rotation='left'):
         out[:, :, dz-overlap:dz] = weights*data[:n, :, :overlap] + (weights*data[n:2*n, :, :overlap])[:, :, ::-1]
     elif rotation == 'right':
         weights = np.linspace(1.0, 0, overlap)
-        out[:, :, :dz-overlap] = data[:n, :, :-overlap]
-        out[:, :, -dz+overlap:] = data[n:2*n, :, :-overlap][:, :, ::-1]
-        out[:, :, dz-overlap:dz] = weights*data[:n, :, -overlap:] + (weights*data[n:2*n, :, -overlap:])[:, :, ::-1]
+        out[:, :, :dz-overlap] = data[:n, :, :dz-overlap]
+        out[:, :, -dz+overlap:] = data[n:2*n, :, :dz-overlap][:, :, ::-1]
+        out[:, :, dz-overlap:dz] = weights*data[:n, :, dz-overlap:] + (weights*data[n:2*n, :, dz-overlap:])[:, :, ::-1]
+    else:
+        raise ValueError("rotation must be 'left' or 'right'")
     return out
 
 # For backward compatibility
-- 
2.43.0


From a570683ff375fc1d3d8d72210d189f1657d574a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:42 +0000
Subject: [PATCH 25/50] fix: get_worker_ncore_slices no longer uses the removed
 np.int

---
 source/tomopy/util/mproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index 1ec6fe1..27f0528 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -166,10 +166,10 @@ def get_worker_ncore_slices(axis_size, ncore=None, nchunk=None):
         # calculate number of slices to send to each GPU
         chunk_size = axis_size // ncore
         leftover = axis_size % ncore
-        sizes = np.ones(ncore, dtype=np.int) * chunk_size
+        sizes = np.ones(ncore, dtype=int) * chunk_size
         # evenly distribute leftover across workers
         sizes[:leftover] += 1
-        offsets = np.zeros(ncore+1, dtype=np.int)
+        offsets = np.zeros(ncore+1, dtype=int)
         offsets[1:] = np.cumsum(sizes)
         slcs = [np.s_[offsets[i]:offsets[i+1]]
                 for i in range(offsets.shape[0]-1)]
-- 
2.43.0


From c243576a56b208c9a3965b397ed2363f68a9db93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:25 +0000
Subject: [PATCH 26/50] fix: calc_intensity rejects an unknown mode instead of
 failing on an unset variable

---
 source/tomopy/sim/propagate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/sim/propagate.py b/source/tomopy/sim/propagate.py
index efe6e4f..f330350 100644
--- a/source/tomopy/sim/propagate.py
+++ b/source/tomopy/sim/propagate.py
@@ -215,4 +215,6 @@ def calc_intensity(probe, proj, shift_x=None, shift_y=None, mode='near'):
         intensity = abs(psi) ** 2
     elif mode == 'far':
         intensity = abs(np.fft.fftshift(np.fft.fft2(psi))) ** 2
+    else:
+        raise ValueError("Keyword 'mode' must be 'near' or 'far'.")
     return intensity
-- 
2.43.0


From aa05ac51f9e0da7ad40d182167ea90052db670f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:49 +0000
Subject: [PATCH 27/50] fix: astra reports errors of its per-GPU threads
 instead of returning a partial result

---
 source/tomopy/recon/wrappers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index 2d8cfa2..5cc7327 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -155,9 +155,13 @@ def astra(tomo, center, recon, theta, **kwargs):
         _, slcs = mproc.get_ncore_slices(nslices, ngpu)
         # execute recon on a thread per GPU
         with cf.ThreadPoolExecutor(ngpu) as e:
-            for gpu, slc in zip(gpu_list, slcs):
+            futures = [
                 e.submit(astra_rec, tomo[slc], center[slc], recon[slc],
-                            theta, vol_geom, niter, proj_type, gpu, opts)
+                         theta, vol_geom, niter, proj_type, gpu, opts)
+                for gpu, slc in zip(gpu_list, slcs)
+            ]
+        for future in futures:
+            future.result()  # raises what the reconstruction raised
     else:
         astra_rec(tomo, center, recon, theta, vol_geom, niter,
                            proj_type, None, opts)
-- 
2.43.0


From 1c3cd1c49440e7bac48c26678ab45c609c4077d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:49 +0000
Subject: [PATCH 28/50] fix: astra fills in default options in its own copy of
 the caller's dictionary

---
 source/tomopy/recon/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index 5cc7327..ddf5d78 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -130,7 +130,7 @@ def astra(tomo, center, recon, theta, **kwargs):
     nslices = tomo.shape[0]
     num_gridx = kwargs['num_gridx']
     num_gridy = kwargs['num_gridy']
-    opts = kwargs['options']
+    opts = dict(kwargs['options'])
 
     # Check options
     for o in needed_options['astra']:
-- 
2.43.0


From 5805c1c82a5aa535c4cc6c1ec9e341b162e5d69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:49 +0000
Subject: [PATCH 29/50] fix: lprec keeps its table of busy GPUs per call
 instead of in a module variable shared by concurrent calls

---
 source/tomopy/recon/wrappers.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index ddf5d78..73ef46b 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -432,35 +432,34 @@ def lprec(tomo, center, recon, theta, **kwargs):
         lp.initcmem(lpmethod != 'fbp', gpu)
 
     lock = threading.Lock()
-    global BUSYGPUS
-    BUSYGPUS = np.zeros(ngpus)
+    busy = np.zeros(ngpus)
     # run reconstruciton on many gpus
     with cf.ThreadPoolExecutor(ngpus) as e:
         shift = 0
-        for reconi in e.map(partial(lpmultigpu, lp, lpmethods_list[lpmethod], recon, tomo, num_iter, reg_par, gpu_list, lock), ids_list):
+        for reconi in e.map(partial(lpmultigpu, lp, lpmethods_list[lpmethod], recon, tomo, num_iter, reg_par, gpu_list, lock, busy), ids_list):
             recon[np.arange(0, reconi.shape[0])+shift] = reconi
             shift += reconi.shape[0]
 
     return recon
 
 
-def lpmultigpu(lp, lpmethod, recon, tomo, num_iter, reg_par, gpu_list, lock, ids):
+def lpmultigpu(lp, lpmethod, recon, tomo, num_iter, reg_par, gpu_list, lock, busy, ids):
     """
     Reconstruction Nssimgpu slices simultaneously on 1 GPU
     """
 
-    global BUSYGPUS
-    lock.acquire()  # will block if lock is already held
-    for k in range(len(gpu_list)):
-        if BUSYGPUS[k] == 0:
-            BUSYGPUS[k] = 1
-            gpu_id = k
-            break
-    lock.release()
+    with lock:  # will block if lock is already held
+        for k in range(len(gpu_list)):
+            if busy[k] == 0:
+                busy[k] = 1
+                gpu_id = k
+                break
     gpu = gpu_list[gpu_id]
 
     # reconstruct
-    recon[ids] = lpmethod(lp, recon[ids], tomo[ids], num_iter, reg_par, gpu)
-    BUSYGPUS[gpu_id] = 0
+    try:
+        recon[ids] = lpmethod(lp, recon[ids], tomo[ids], num_iter, reg_par, gpu)
+    finally:
+        busy[gpu_id] = 0
 
     return recon[ids]
-- 
2.43.0


From ca7ab7c4dc1ed2663b1fce02e6ea0570d5220e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:49 +0000
Subject: [PATCH 30/50] fix: ufo_fbp and ufo_dfi report errors of the thread
 that feeds the UFO graph

---
 source/tomopy/recon/wrappers.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index 73ef46b..142cc89 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -219,7 +219,17 @@ def astra_rec(tomo, center, recon, theta, vol_geom, niter, proj_type, gpu_index,
         astra_mod.projector.delete(pid)
 
 
-def _process_data(input_task, output_task, sinograms, slices):
+def _process_data(input_task, output_task, sinograms, slices, errors):
+    try:
+        try:
+            _process_sinograms(input_task, output_task, sinograms, slices)
+        finally:
+            input_task.stop()
+    except BaseException as e:
+        errors.append(e)  # raised by the caller once the graph has finished
+
+
+def _process_sinograms(input_task, output_task, sinograms, slices):
     import ufo.numpy as unp
     num_sinograms, num_projections, width = sinograms.shape
 
@@ -242,8 +252,6 @@ def _process_data(input_task, output_task, sinograms, slices):
         slices[i, :, :] = array[frm:to, frm:to]
         output_task.release_output_buffer(data)
 
-    input_task.stop()
-
 
 def ufo_fbp(tomo, center, recon, theta, **kwargs):
     """
@@ -278,11 +286,14 @@ def ufo_fbp(tomo, center, recon, theta, **kwargs):
     g.connect_nodes(ifft, backproject)
     g.connect_nodes(backproject, output_task)
 
-    args = (input_task, output_task, tomo, recon)
+    errors = []
+    args = (input_task, output_task, tomo, recon, errors)
     thread = threading.Thread(target=_process_data, args=args)
     thread.start()
     sched.run(g)
     thread.join()
+    if errors:
+        raise errors[0]
 
     logger.info("UFO+FBP run time: {}s".format(sched.props.time))
 
@@ -324,11 +335,14 @@ def ufo_dfi(tomo, center, recon, theta, **kwargs):
     g.connect_nodes(ifft, swap_backward)
     g.connect_nodes(swap_backward, output_task)
 
-    args = (input_task, output_task, tomo, recon)
+    errors = []
+    args = (input_task, output_task, tomo, recon, errors)
     thread = threading.Thread(target=_process_data, args=args)
     thread.start()
     sched.run(g)
     thread.join()
+    if errors:
+        raise errors[0]
 
     logger.info("UFO+DFI run time: {}s".format(sched.props.time))
 
-- 
2.43.0


From 82d869408b5896126bd76fe3490eba37bd8a9f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:06 +0000
Subject: [PATCH 31/50] fix: enhance_projs_aps_1id and detector drift
 adjustment work with the default ncore on a single-core machine

---
 source/tomopy/misc/corr.py      | 2 +-
 source/tomopy/prep/alignment.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 599c9e6..9347127 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -957,7 +957,7 @@ def enhance_projs_aps_1id(imgstack, median_ks=5, ncore=None):
     ndarray
         3D enhanced image stacks.
     """
-    ncore = mproc.mp.cpu_count() - 1 if ncore is None else ncore
+    ncore = max(1, mproc.mp.cpu_count() - 1) if ncore is None else ncore
 
     # need to use multiprocessing to speed up the process
     tmp = []
diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index 4e88754..2d1e444 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -784,7 +784,7 @@ def detector_drift_adjust_aps_1id(imgstacks,
     np.ndarray
         transformation matrices used to adjust each image
     """
-    ncore = mproc.mp.cpu_count() - 1 if ncore is None else ncore
+    ncore = max(1, mproc.mp.cpu_count() - 1) if ncore is None else ncore
 
     def quick_diff(x): return np.amax(np.absolute(x))
 
-- 
2.43.0


From fd637215d829c874b8217ec76870fab147523e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:48 +0000
Subject: [PATCH 32/50] fix: write_center masks with the requested ratio

---
 source/tomopy/recon/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index 4f5aea9..674146e 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -568,7 +568,7 @@ def write_center(
 
     # Apply circular mask.
     if mask is True:
-        rec = circ_mask(rec, axis=0)
+        rec = circ_mask(rec, axis=0, ratio=ratio)
 
     # Save images to a temporary folder.
     dpath = os.path.abspath(dpath)
-- 
2.43.0


From 92483caff175e2e771bfd872e13d82fd82ffd5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:48 +0000
Subject: [PATCH 33/50] fix: write_center works with the iterative algorithms
 it documents

---
 source/tomopy/recon/rotation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index 674146e..47de24c 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -557,14 +557,19 @@ def write_center(
         else:
             stack[m] = tomo[:, ind, :]
 
+    # Only the analytic algorithms have a filter.
+    kwargs = {}
+    if not isinstance(algorithm, str) or algorithm in ('fbp', 'gridrec'):
+        kwargs['filter_name'] = filter_name
+
     # Reconstruct the same slice with a range of centers.
     rec = recon(stack,
                 theta,
                 center=center,
                 sinogram_order=True,
                 algorithm=algorithm,
-                filter_name=filter_name,
-                nchunk=1)
+                nchunk=1,
+                **kwargs)
 
     # Apply circular mask.
     if mask is True:
-- 
2.43.0


From 13846b06934c40b9e9f178e08087eef63ca96f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 34/50] fix: find_center masks with the requested ratio

---
 source/tomopy/recon/rotation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index 47de24c..bfd3bfa 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -137,7 +137,7 @@ def find_center(
         tomo_ind = tomo[:, ind:ind + 1, :]
 
     hmin, hmax = _adjust_hist_limits(
-        tomo_ind, theta, mask, sinogram_order)
+        tomo_ind, theta, mask, ratio, sinogram_order)
 
     # Magic is ready to happen...
     res = minimize(
@@ -148,7 +148,7 @@ def find_center(
     return res.x
 
 
-def _adjust_hist_limits(tomo_ind, theta, mask, sinogram_order):
+def _adjust_hist_limits(tomo_ind, theta, mask, ratio, sinogram_order):
     # Make an initial reconstruction to adjust histogram limits.
     rec = recon(tomo_ind,
                 theta,
@@ -157,7 +157,7 @@ def _adjust_hist_limits(tomo_ind, theta, mask, sinogram_order):
 
     # Apply circular mask.
     if mask is True:
-        rec = circ_mask(rec, axis=0)
+        rec = circ_mask(rec, axis=0, ratio=ratio)
 
     # Adjust histogram boundaries according to reconstruction.
     return _adjust_hist_min(rec.min()), _adjust_hist_max(rec.max())
@@ -193,7 +193,7 @@ def _find_center_cost(
         algorithm='gridrec')
 
     if mask is True:
-        rec = circ_mask(rec, axis=0)
+        rec = circ_mask(rec, axis=0, ratio=ratio)
 
     hist, e = np.histogram(rec, bins=64, range=[hmin, hmax])
     hist = hist.astype('float32') / rec.size + 1e-12
-- 
2.43.0


From e7594dfeca0939f49a3f89a24c65f0176393b571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:44 +0000
Subject: [PATCH 35/50] fix: recon rejects unknown filter names instead of
 using the default filter

---
 source/tomopy/recon/algorithm.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index d9ee277..e1267a0 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -102,6 +102,11 @@ allowed_recon_kwargs = {
     'tikh': ['num_gridx', 'num_gridy', 'num_iter', 'reg_data', 'reg_par'],
 }
 
+allowed_filter_names = [
+    'none', 'shepp', 'cosine', 'hann', 'hamming', 'ramlak', 'parzen',
+    'butterworth', 'custom', 'custom2d'
+]
+
 
 def recon(tomo,
           theta,
@@ -309,6 +314,11 @@ def recon(tomo,
                     kwargs[key] = np.require(value, dtype=np.int32,
                                              requirements="AC")
 
+        # Native code takes an unknown filter name for the default filter.
+        if kwargs.get('filter_name', 'none') not in allowed_filter_names:
+            raise ValueError('Keyword "filter_name" must be one of %s.' %
+                             (allowed_filter_names, ))
+
         # Set kwarg defaults.
         for kw in allowed_kwargs[algorithm]:
             kwargs.setdefault(kw, kwargs_defaults[kw])
-- 
2.43.0


From 0894c3b946b2b7a1d4399f2dd3be819425a523a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:37 +0000
Subject: [PATCH 36/50] fix: project and vector reject a number of centers that
 is not the number of slices

---
 source/tomopy/sim/project.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index f7c04d2..99bdab6 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -472,6 +472,8 @@ def get_center(shape, center):
         center = np.ones(shape[0], dtype='float32') * (shape[2] / 2.)
     elif np.array(center).size == 1:
         center = np.ones(shape[0], dtype='float32') * center
+    elif np.array(center).size != shape[0]:
+        raise ValueError('There must be one center for every slice.')
     return np.require(center, dtype=np.float32, requirements="AC")
 
 
-- 
2.43.0


From a29ba576f90f71a4af8b045dce137c9bc07f3dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:00 +0000
Subject: [PATCH 37/50] fix: project2 and project3 reject components of
 different shapes

---
 source/tomopy/sim/project.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index 99bdab6..90428d6 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -371,6 +371,9 @@ def project2(
     objy = np.require(objy, dtype=np.float32, requirements="AC")
     theta = np.require(theta, dtype=np.float32, requirements="AC")
 
+    if objx.shape != objy.shape:
+        raise ValueError('The components must have the same shape.')
+
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
     dt = theta.size
@@ -438,6 +441,9 @@ def project3(
     objz = np.require(objz, dtype=np.float32, requirements="AC")
     theta = np.require(theta, dtype=np.float32, requirements="AC")
 
+    if objx.shape != objy.shape or objx.shape != objz.shape:
+        raise ValueError('The components must have the same shape.')
+
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
     dt = theta.size
-- 
2.43.0


From bafabc3d3af4177739cd4656a6e5b30ca737e78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:00 +0000
Subject: [PATCH 38/50] fix: vector, vector2 and vector3 reject a number of
 angles that is not the number of projections

---
 source/tomopy/recon/vector.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/tomopy/recon/vector.py b/source/tomopy/recon/vector.py
index 1e194b1..9718e7d 100644
--- a/source/tomopy/recon/vector.py
+++ b/source/tomopy/recon/vector.py
@@ -80,12 +80,19 @@ def _check_cubic(*tomos):
         raise ValueError('All data sets must have the same shape.')
 
 
+def _check_angles(tomo, theta):
+    """Raise unless the (initialized) data set has one angle per projection."""
+    if tomo.shape[1] != theta.size:
+        raise ValueError('There must be one angle for every projection.')
+
+
 def vector(tomo, theta, center=None, num_iter=1):
     tomo = dtype.as_float32(tomo)
     theta = np.require(theta, dtype=np.float32, requirements="AC")
 
     # Initialize tomography data.
     tomo = init_tomo(tomo, sinogram_order=False, sharedmem=False)
+    _check_angles(tomo, theta)
 
     recon_shape = (tomo.shape[0], tomo.shape[2], tomo.shape[2])
     recon1 = np.zeros(recon_shape, dtype=np.float32)
@@ -108,6 +115,8 @@ def vector2(tomo1, tomo2, theta1, theta2, center1=None, center2=None, num_iter=1
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
     tomo2 = init_tomo(tomo2, sinogram_order=False, sharedmem=False)
     _check_cubic(tomo1, tomo2)
+    _check_angles(tomo1, theta1)
+    _check_angles(tomo2, theta2)
 
     recon_shape = (tomo1.shape[0], tomo1.shape[2], tomo1.shape[2])
     recon1 = np.zeros(recon_shape, dtype=np.float32)
@@ -135,6 +144,9 @@ def vector3(tomo1, tomo2, tomo3, theta1, theta2, theta3, center1=None, center2=N
     tomo2 = init_tomo(tomo2, sinogram_order=False, sharedmem=False)
     tomo3 = init_tomo(tomo3, sinogram_order=False, sharedmem=False)
     _check_cubic(tomo1, tomo2, tomo3)
+    _check_angles(tomo1, theta1)
+    _check_angles(tomo2, theta2)
+    _check_angles(tomo3, theta3)
 
     recon_shape = (tomo1.shape[0], tomo1.shape[2], tomo1.shape[2])
     recon1 = np.zeros(recon_shape, dtype=np.float32)
-- 
2.43.0


From 25d4a63a85dd40699cc9900f2a1f612a4724baae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:00 +0000
Subject: [PATCH 39/50] fix: recon rejects a projection order that is not one
 entry per projection

---
 source/tomopy/recon/algorithm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index e1267a0..9012853 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -313,6 +313,9 @@ def recon(tomo,
                 if key == 'ind_block':
                     kwargs[key] = np.require(value, dtype=np.int32,
                                              requirements="AC")
+                    if kwargs[key].size != tomo.shape[1]:
+                        raise ValueError('Keyword "ind_block" must order '
+                                         'every projection.')
 
         # Native code takes an unknown filter name for the default filter.
         if kwargs.get('filter_name', 'none') not in allowed_filter_names:
-- 
2.43.0


From d012682c8f9e2d3eae3d2b481c1792f249c33ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:00 +0000
Subject: [PATCH 40/50] fix: inpainter_morph rejects a mask of another shape
 than the data

---
 source/tomopy/misc/corr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 9347127..f6a60ba 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -1079,6 +1079,8 @@ def inpainter_morph(
 
         If the input mask array is not bool.
 
+        If the mask has not the same shape as the input array.
+
         If inpainting_type is not 'mean', 'median' or 'random'.
 
         If axis is an integer for 2D input data.
@@ -1095,6 +1097,8 @@ def inpainter_morph(
         raise ValueError(
             "Please make sure that the mask provided is boolean where true values define the missing data regions!"
         )
+    if mask.shape != arr.shape:
+        raise ValueError("The mask must have the same shape as the data")
     out = np.empty_like(arr, order="C")
 
     if inpainting_type not in ["mean", "median", "random"]:
-- 
2.43.0


From d95760118c4b3fd56d26432ce55808961e7b520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:11 +0000
Subject: [PATCH 41/50] fix: recon rejects custom gridrec filters that are
 shorter than what native code reads

---
 source/tomopy/recon/algorithm.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 9012853..491a688 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -326,6 +326,18 @@ def recon(tomo,
         for kw in allowed_kwargs[algorithm]:
             kwargs.setdefault(kw, kwargs_defaults[kw])
 
+        # Native code reads a custom filter up to the (padded) frequency range.
+        if algorithm == 'gridrec' and kwargs['filter_name'] in ('custom',
+                                                                'custom2d'):
+            size = 8
+            while size * 2 < tomo.shape[2]:
+                size *= 2
+            if kwargs['filter_name'] == 'custom2d':
+                size *= tomo.shape[1]
+            if kwargs['filter_par'].size < size:
+                raise ValueError('Keyword "filter_par" must have at least %d '
+                                 'elements for this filter.' % size)
+
     elif hasattr(algorithm, '__call__'):
         # Set kwarg defaults.
         for kw in generic_kwargs:
-- 
2.43.0


From 9d00d82d1ee91ed0da025480d14d027a3abbdbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:39 +0000
Subject: [PATCH 42/50] fix: keep the mirrored windows of the stripe detection
 inside the volume

---
 source/libtomo/prep/stripes_detect3d.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/source/libtomo/prep/stripes_detect3d.c b/source/libtomo/prep/stripes_detect3d.c
index 8e36565..8a02261 100644
--- a/source/libtomo/prep/stripes_detect3d.c
+++ b/source/libtomo/prep/stripes_detect3d.c
@@ -151,11 +151,15 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
         j1 = j + j_m;
         if((j1 < 0) || (j1 >= dimY))
             j1 = j - j_m;
+        if((j1 < 0) || (j1 >= dimY))
+            j1 = j;
         for(k_m = -radius; k_m <= radius; k_m++)
         {
             k1 = k + k_m;
             if((k1 < 0) || (k1 >= dimZ))
                 k1 = k - k_m;
+            if((k1 < 0) || (k1 >= dimZ))
+                k1 = k;
             newindex = (size_t) (dimX * dimY * k1) + (size_t) (j1 * dimX + i);
             mean_plate += fabsf(input[newindex]);
         }
@@ -169,11 +173,15 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
         j1 = j + j_m;
         if((j1 < 0) || (j1 >= dimY))
             j1 = j - j_m;
+        if((j1 < 0) || (j1 >= dimY))
+            j1 = j;
         for(i_m = 1; i_m <= radius; i_m++)
         {
             i1 = i + i_m;
             if(i1 >= dimX)
                 i1 = i - i_m;
+            if(i1 < 0)
+                i1 = i;
             newindex = (size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i1);
             mean_horiz += fabsf(input[newindex]);
         }
@@ -187,11 +195,15 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
         j1 = j + j_m;
         if((j1 < 0) || (j1 >= dimY))
             j1 = j - j_m;
+        if((j1 < 0) || (j1 >= dimY))
+            j1 = j;
         for(i_m = -radius; i_m <= -1; i_m++)
         {
             i1 = i + i_m;
             if(i1 < 0)
                 i1 = i - i_m;
+            if(i1 >= dimX)
+                i1 = i;
             newindex = (size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i1);
             mean_horiz2 += fabsf(input[newindex]);
         }
@@ -426,6 +438,8 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
             x_l = i + x;
             if(x_l < 0)
                 x_l = i - x;
+            if(x_l >= dimX)
+                x_l = i;
             if(mask[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + x_l)] == true)
             {
                 mask_left = 1;
@@ -439,6 +453,8 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
             x_r = i + x;
             if(x_r >= dimX)
                 x_r = i - x;
+            if(x_r < 0)
+                x_r = i;
             if(mask[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + x_r)] == true)
             {
                 mask_right = 1;
@@ -460,6 +476,8 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
                 k_u = k + x;
                 if(k_u < 0)
                     k_u = k - x;
+                if(k_u >= dimZ)
+                    k_u = k;
                 if(mask[(size_t) (dimX * dimY * k_u) + (size_t) (j * dimX + i)] == true)
                 {
                     mask_up = 1;
@@ -473,6 +491,8 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
                 k_d = k + x;
                 if(k_d >= dimZ)
                     k_d = k - x;
+                if(k_d < 0)
+                    k_d = k;
                 if(mask[(size_t) (dimX * dimY * k_d) + (size_t) (j * dimX + i)] == true)
                 {
                     mask_down = 1;
-- 
2.43.0


From 08142b479d0686659dee46086c4eef546131f848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:52 +0000
Subject: [PATCH 43/50] fix: gridrec's correction table and padding cover every
 grid size

---
 source/libtomo/gridrec/gridrec.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index e672c34..724c8ec 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -120,6 +120,8 @@ set_pswf_tables(float C, int nt, float lambda, const float* coefs, int ltbl, int
         norm           = -norm;
         winv[linv + i] = winv[linv - i] = norm / wtbl[(int) roundf(i * fac)];
     }
+    // The last entry, used when the grid is as large as the table
+    winv[2 * linv + 1] = -norm / wtbl[ltbl];
 }
 
 void
@@ -222,8 +224,8 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
                               0.1372983E-01,  -0.7963169E-03, 0.3593372E-04,
                               -0.1295941E-05, 0.3817796E-07 };
 
-    // Compute pdim = next power of 2 >= dx
-    for(pdim = 16; pdim < dx; pdim *= 2)
+    // Compute pdim = next power of 2 >= dx which also covers the grid
+    for(pdim = 16; pdim < dx || pdim < ngridx || pdim < ngridy; pdim *= 2)
         ;
 
     const int pdim2 = pdim >> 1;
@@ -248,7 +250,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
     __ASSSUME_64BYTES_ALIGNED(H);
     wtbl = malloc_vector_f(ltbl + 1);
     __ASSSUME_64BYTES_ALIGNED(wtbl);
-    winv = malloc_vector_f(pdim - 1);
+    winv = malloc_vector_f(pdim);
     __ASSSUME_64BYTES_ALIGNED(winv);
     J_z = malloc_vector_f(pdim2 * dt);
     __ASSSUME_64BYTES_ALIGNED(J_z);
-- 
2.43.0


From 4147bc09384fc50e908d38d37265eadce1860c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:01 +0000
Subject: [PATCH 44/50] fix: remove_ring's median filter keeps its first window
 inside the polar image

---
 source/libtomo/misc/remove_ring.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index 1768f39..2177bec 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -285,12 +285,14 @@ median_filter_fast_1D(float*** filtered_image, float*** image, int start_row,
                     {
                         adjusted_row -= height / 2;
                     }
-                    median_array[n + kernel_rad] = image[0][adjusted_row][adjusted_col];
                 }
-                else
+                // Columns past the end of a row count as zero, as they do below
+                float value = 0.0;
+                if(adjusted_col < width)
                 {
-                    median_array[n + kernel_rad] = image[0][row][adjusted_col];
+                    value = image[0][adjusted_row][adjusted_col];
                 }
+                median_array[n + kernel_rad]   = value;
                 position_array[n + kernel_rad] = n + kernel_rad;
             }
             // Sort the array
-- 
2.43.0


From 96e3d403bb602a7d54092ca1fc47da6cf47aa3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:25 +0000
Subject: [PATCH 45/50] fix: remove_ring's reflected azimuthal windows stay
 inside half a turn

---
 source/libtomo/misc/remove_ring.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index 2177bec..5df9398 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -632,6 +632,11 @@ remove_ring(float* data, float center_x, float center_y, int dx, int dy, int dz,
             polar_transform(image, center_x, center_y, dx, dy, &pol_width, &pol_height,
                             thresh_max, thresh_min, r_scale, ang_scale, ring_width);
         m_azi = floor((float) pol_height / 360.0 * angular_min);
+        // The reflected azimuthal windows have to stay within half a turn
+        if(m_azi > pol_height / 2 - 1)
+        {
+            m_azi = pol_height / 2 - 1;
+        }
         m_rad = 2 * ring_width + 1;
 
         // Call Ring Algorithm
-- 
2.43.0


From 409719879c4423291329c6796c3584fbac25651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:15 +0000
Subject: [PATCH 46/50] fix: remove_ring rejects centers outside the image and
 negative ring widths

---
 source/tomopy/misc/corr.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index f6a60ba..c34afc9 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -844,6 +844,12 @@ def remove_ring(
     if not 0 <= theta_min < 180:
         raise ValueError("theta_min should be in the range [0 - 180)")
 
+    if not (0 <= center_x <= dx - 1 and 0 <= center_y <= dy - 1):
+        raise ValueError("center_x and center_y should be inside the image")
+
+    if rwidth < 0:
+        raise ValueError("rwidth should not be negative")
+
     args = (
         center_x,
         center_y,
-- 
2.43.0


From ba7fbb4478486c868570dbc3f2069e85872285d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:15 +0000
Subject: [PATCH 47/50] fix: normalize_bg rejects boundaries wider than the
 image

---
 source/tomopy/prep/normalize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index e2fae66..3b77d39 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -230,6 +230,8 @@ def normalize_bg(tomo, air=1, ncore=None, nchunk=None):
     """
     tomo = dtype.as_float32(tomo)
     air = dtype.as_int32(air)
+    if not 1 <= air <= tomo.shape[2]:
+        raise ValueError("air must be between one and the image width")
 
     arr = mproc.distribute_jobs(
         tomo,
-- 
2.43.0


From 29ab2df662047709354c4a7bbf83f5c3a35055d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:59 +0000
Subject: [PATCH 48/50] fix: recon rejects a number of blocks that is not
 positive

---
 source/tomopy/recon/algorithm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 491a688..4c3e549 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -316,6 +316,8 @@ def recon(tomo,
                     if kwargs[key].size != tomo.shape[1]:
                         raise ValueError('Keyword "ind_block" must order '
                                          'every projection.')
+                if key == "num_block" and kwargs[key] < 1:
+                    raise ValueError('Keyword "num_block" must be positive.')
 
         # Native code takes an unknown filter name for the default filter.
         if kwargs.get('filter_name', 'none') not in allowed_filter_names:
-- 
2.43.0


From c6baec6131652770a2a377b22f00a7af0c08a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:04 +0000
Subject: [PATCH 49/50] fix: inpainter_morph rejects a searching window without
 pixels

---
 source/tomopy/misc/corr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index c34afc9..9eb6564 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -1105,6 +1105,8 @@ def inpainter_morph(
         )
     if mask.shape != arr.shape:
         raise ValueError("The mask must have the same shape as the data")
+    if size < 1:
+        raise ValueError("The size of the searching window must be positive")
     out = np.empty_like(arr, order="C")
 
     if inpainting_type not in ["mean", "median", "random"]:
-- 
2.43.0


From 7dc043bffc5db7b29f9f8cc118a31d66af0946c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:43 +0000
Subject: [PATCH 50/50] fix: remove_stripe_ti corrects the projections beyond
 the last full block

---
 source/tomopy/prep/stripe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index 7523f0b..9cb7323 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -315,7 +315,9 @@ def _ringb(sino, m, n, step):
     nblock = int(N / step)
     new = np.ones((R, N))
     for k in range(0, nblock):
-        sino_block = mysino[:, k * step:(k + 1) * step]
+        # The last block includes the projections that remain.
+        end = (k + 1) * step if k < nblock - 1 else N
+        sino_block = mysino[:, k * step:end]
         alpha = _get_parameter(sino_block)
         pp = sino_block.mean(1)
 
@@ -324,8 +326,8 @@ def _ringb(sino, m, n, step):
 
         # Update sinogram.
         q.shape = (R, 1)
-        K = np.kron(q, np.ones((1, step)))
-        new[:, k * step:(k + 1) * step] = np.add(sino_block, K)
+        K = np.kron(q, np.ones((1, end - k * step)))
+        new[:, k * step:end] = np.add(sino_block, K)
     newsino = new.astype(np.float32)
     return np.transpose(newsino)
 
-- 
2.43.0

