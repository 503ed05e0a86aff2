From 8d9ed9d827b07837b30c0eff4f4b78dbb4166944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 01/83] fix: gcf() drops the last time origin

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index b28e6e8..445a211 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -63,7 +63,7 @@ def gcf(f, grid, skip, t, x):
     cnt = defaultdict(int)
     for i in grid:
         # Note: len(x) gives x.shape[0]
-        for i0 in progress(range(0, len(x)-i-1, skip)):
+        for i0 in progress(range(0, len(x)-i, skip)):
             # Get the actual time difference
             dt = t[i0+i] - t[i0]
             cf[dt] += f(x[i0+i], x[i0])
-- 
2.43.0


From 6a9fe9e7980ef58bccec4068a5a3763839f06f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 02/83] fix: chi4 drops the last time origins

---
 atooms/postprocessing/chi4t.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index d1e0c72..a4f8810 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -60,7 +60,7 @@ class Chi4SelfOverlap(Correlation):
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
-            for i0 in range(off, len(self._pos_unf)-i-self.skip, self.skip):
+            for i0 in range(off, len(self._pos_unf)-i, self.skip):
                 w = f(self._pos_unf[i0], self._pos_unf[i0 + i])
                 A2 += w**2
                 A += w
@@ -111,7 +111,7 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
-            for i0 in range(off, len(self._pos_unf)-i-self.skip, self.skip):
+            for i0 in range(off, len(self._pos_unf)-i, self.skip):
                 w = f(self._pos_unf[i0], self._pos_unf[i0+i])
                 A2 += w**2
                 A += w
-- 
2.43.0


From c8937879d3360353142cba054c5693e47c696e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 03/83] fix: optimized chi4 uses names that do not exist

---
 atooms/postprocessing/api.py   | 2 +-
 atooms/postprocessing/chi4t.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index f942436..b2656f3 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -256,7 +256,7 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
     global_args = _compat(global_args)
     func = _func_db[func]
     if global_args['fast']:
-        backend = pp.Chi4SelfOverlapOpti
+        backend = pp.Chi4SelfOverlapOptimized
     else:
         backend = pp.Chi4SelfOverlap
 
diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index a4f8810..c7d615d 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -99,13 +99,13 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
 
     def _compute(self):
         try:
-            from atooms.postprocessing.realspace_wrap import realspace_module
+            from atooms.postprocessing.realspace_wrap import compute
         except ImportError:
             _log.error('f90 wrapper missing or not functioning')
             raise
 
         def f(x, y):
-            return realspace_module.self_overlap(x, y, numpy.array(self.a_square))
+            return compute.self_overlap(x, y, numpy.array(self.a_square))
 
         self.grid = []
         self.average.tag, self.variance.tag = self.tag, self.tag
-- 
2.43.0


From dea32c788ae5d01c0b1d7d131a22ce7b4bf8b333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 04/83] fix: four-point structure factor cannot be computed

---
 atooms/postprocessing/s4kt.py | 40 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/atooms/postprocessing/s4kt.py b/atooms/postprocessing/s4kt.py
index 715ce68..12d28f7 100644
--- a/atooms/postprocessing/s4kt.py
+++ b/atooms/postprocessing/s4kt.py
@@ -24,7 +24,7 @@ class S4ktOverlap(FourierSpaceCorrelation):
     symbol = 's4kt'
     short_name = 'S_4(t,k)'
     long_name = '4-point dynamic structure factor from self overlap'
-    phasespace = ['pos', 'pos-unf']
+    phasespace = ['pos-unf']
 
     # TODO: refactor a S4k base correlation that forces to implement tabulat method (e.g. overlap, Q_6, voronoi ...)
     # TODO: should we drop this instead and rely on F(k,t) with grandcanonical
@@ -37,21 +37,25 @@ class S4ktOverlap(FourierSpaceCorrelation):
         self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
         self.a_square = a**2
 
-    def _tabulate_W(self, kgrid, selection, t_off, t, skip):
+    def _tabulate_W(self, t_off, t, skip):
         """
         Tabulate W
         """
-        side = self.trajectory[0].cell.side
-        nt = range(t_off, len(self._pos)-t, skip)
+        # Exponentials can be computed from unfolded positions, because
+        # the wave-vectors are compatible with the periodic boundaries
+        nt = range(t_off, len(self._pos_unf)-t, skip)
         W = {}
         for i_0, t_0 in enumerate(nt):
-            expo = expo_sphere(self.k0, self._koffset, self._pos[t_0])
-            for k, klist in self._kvectors:
+            expo = expo_sphere(self.k0, self._koffset, self._pos_unf[t_0])
+            w = self_overlap(self._pos_unf[t_0], self._pos_unf[t_0+t], self.a_square)
+            for klist in self._kvectors:
                 for kvec in klist:
                     if kvec not in W:
                         W[kvec] = numpy.ndarray(len(nt), dtype=complex)
-                    W[kvec][i_0] = numpy.sum(self_overlap(self._pos_unf[t_0], self._pos_unf[t_0+t], side, self.a_square) *
-                                             expo[..., 0, kvec[0]] * expo[..., 1, kvec[1]] * expo[..., 2, kvec[2]])
+                    tmp = w * expo[..., 0, kvec[0]]
+                    for idim in range(1, len(kvec)):
+                        tmp *= expo[..., idim, kvec[idim]]
+                    W[kvec][i_0] = numpy.sum(tmp)
         return W
 
     def _compute(self):
@@ -62,20 +66,18 @@ class S4ktOverlap(FourierSpaceCorrelation):
         self.value = []
         for off, i in progress(self._discrete_tgrid):
             # As for fkt
-            W = self._tabulate_W(self.kgrid, self.selection, off, i, self.skip)
+            W = self._tabulate_W(off, i, self.skip)
 
-            # Compute variance of W
-            w_av = [complex(0., 0.) for _ in self.kgrid]
-            w2_av = [complex(0., 0.) for _ in self.kgrid]
-            for k, klist in self._kvectors:
-                for kvec in klist:
-                    # Comupte |<W>|^2  and <W W^*>
-                    w_av[kk] = numpy.average(W[kvec])
-                    w2_av[kk] = numpy.average(W[kvec] * W[kvec].conjugate())
+            # Compute variance of W, averaged over the wave-vectors
+            w2_var = []
+            for klist in self._kvectors:
+                # Compute <W W^*> and |<W>|^2
+                w2_var.append(numpy.average([numpy.average(abs(W[kvec])**2) - abs(numpy.average(W[kvec]))**2
+                                             for kvec in klist]))
 
             # Normalization
-            npart = self._pos[0].shape[0]
+            npart = self._pos_unf[0].shape[0]
             dt.append(self.trajectory.timestep * (self.trajectory.steps[off+i] - self.trajectory.steps[off]))
-            self.value.append([float(w2_av[k] - (w_av[k]*w_av[k].conjugate())) / npart for k in range(len(self.grid[1]))])
+            self.value.append([var / npart for var in w2_var])
         self.grid[1] = self.kgrid
         self.grid[0] = dt
-- 
2.43.0


From 2c8c4b37ac75e178aaecac4e60dc2e0cbed9fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 05/83] fix: spectral density uses grid indices instead of
 wave-vector norms

---
 atooms/postprocessing/ik.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index 2053ea0..a431370 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -8,7 +8,7 @@ from atooms.trajectory import Trajectory
 from atooms.trajectory.utils import is_cell_variable
 
 from .progress import progress
-from .fourierspace import FourierSpaceCorrelation, expo_sphere
+from .fourierspace import FourierSpaceCorrelation, expo_sphere, _k_norm
 
 __all__ = ['SpectralDensity']
 
@@ -54,7 +54,7 @@ class SpectralDensity(FourierSpaceCorrelation):
             expo = expo_sphere(self.k0, self._koffset, self._pos[i])
             for k, klist in enumerate(self._kvectors):
                 for kvec in klist:
-                    knorm = numpy.dot(kvec, kvec)**0.5
+                    knorm = _k_norm(kvec, self.k0, self._koffset)
                     Ri = self._radius[i]
                     mk = 4 * numpy.pi / knorm**3 * \
                         (numpy.sin(knorm*Ri) - (knorm*Ri) * numpy.cos(knorm*Ri))
-- 
2.43.0


From 33fea25f2318e18c596d02317f08cdadf20c9226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 06/83] fix: api.ik() ignores the radii trajectory and the
 input files after the first

---
 atooms/postprocessing/api.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index b2656f3..382d242 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -136,12 +136,12 @@ def ik(input_file, trajectory_radius=None, nk=20, dk=0.1, kmin=-1.0,
     if kgrid is not None:
         kgrid = [float(_) for _ in kgrid.split(',')]
     for th in _get_trajectories([input_file] + list(input_files), global_args):
-        if trajectory_radius is None:
-            trajectory_radius = input_file
-            pp.SpectralDensity(th, trajectory_radius,
-                               kgrid=kgrid, norigins=global_args['norigins'],
-                               kmin=kmin, kmax=kmax, nk=nk, dk=dk,
-                               ksamples=ksamples).do(update=global_args['update'])
+        # By default, the radii are those stored in the trajectory itself
+        radius = trajectory_radius if trajectory_radius is not None else th.filename
+        pp.SpectralDensity(th, radius,
+                           kgrid=kgrid, norigins=global_args['norigins'],
+                           kmin=kmin, kmax=kmax, nk=nk, dk=dk,
+                           ksamples=ksamples).do(update=global_args['update'])
 
 def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         sigma=1.0, func='linear', rmsd_max=-1.0, fix_cm=False,
-- 
2.43.0


From 1e373d4d222d1db4c3069572e06e8a7c95f41f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 07/83] fix: api.sk() opens the weight trajectory again for
 each input file

---
 atooms/postprocessing/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 382d242..d4ad0a7 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -104,14 +104,14 @@ def sk(input_file, nk=20, dk=0.1, kmin=-1.0, kmax=15.0, ksamples=30,
         backend = pp.StructureFactorLegacy
     if kgrid is not None:
         kgrid = [float(_) for _ in kgrid.split(',')]
+    if weight_trajectory is not None:
+        weight_trajectory = TrajectoryXYZ(weight_trajectory)
     for th in _get_trajectories([input_file] + list(input_files), global_args):
         cf = backend(th, kgrid=kgrid,
                      norigins=global_args['norigins'], kmin=kmin,
                      kmax=kmax, nk=nk, dk=dk, ksamples=ksamples)
         if global_args['filter'] is not None:
             cf = pp.Filter(cf, global_args['filter'])
-        if weight_trajectory is not None:
-            weight_trajectory = TrajectoryXYZ(weight_trajectory)
         cf.add_weight(trajectory=weight_trajectory,
                       field=weight,
                       fluctuations=weight_fluctuations)
-- 
2.43.0


From 4506a628965d8af9a606c0f74452a80840ad113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 08/83] fix: spectral density of a sliced trajectory uses the
 radii of other frames

---
 atooms/postprocessing/ik.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index a431370..01e5a3f 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -34,9 +34,10 @@ class SpectralDensity(FourierSpaceCorrelation):
         FourierSpaceCorrelation.__init__(self, trajectory, kgrid, norigins, nk,
                                          dk, kmin, kmax, ksamples)
         self._is_cell_variable = None
-        # TODO: check step consistency 06.09.2017
+        # Match the frames by their step: the trajectory may be sliced
         with Trajectory(trajectory_radius) as th:
-            self._radius = [s.dump('particle.radius') for s in th]
+            radius = {step: s.dump('particle.radius') for step, s in zip(th.steps, th)}
+        self._radius = [radius[step] for step in self.trajectory.steps]
 
     def _compute(self):
         nsteps = len(self._pos)
-- 
2.43.0


From be2c97e1b18766d3244081cabf2f0b14dfff31ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 09/83] fix: changes of the cell are only detected in the last
 frame

---
 atooms/postprocessing/ik.py | 2 +-
 atooms/postprocessing/sk.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index 01e5a3f..db30a45 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -46,7 +46,7 @@ class SpectralDensity(FourierSpaceCorrelation):
         # Note: actually rho_av is not calculated because it is negligible
         rho_av = [complex(0., 0.) for k in self.kgrid]
         rho2_av = [complex(0., 0.) for k in self.kgrid]
-        cell_variable = is_cell_variable(self.trajectory)
+        cell_variable = is_cell_variable(self.trajectory, tests=0)
         for i in progress(range(0, nsteps, self.skip), total=nsteps // self.skip):
             # If cell changes we have to update
             if cell_variable:
diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index f81bb33..a69edfc 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -67,7 +67,7 @@ class StructureFactorLegacy(FourierSpaceCorrelation):
         rho_0_av = [complex(0., 0.) for k in kgrid]
         rho_1_av = [complex(0., 0.) for k in kgrid]
         rho2_av = [complex(0., 0.) for k in kgrid]
-        variable_cell = is_cell_variable(self.trajectory)
+        variable_cell = is_cell_variable(self.trajectory, tests=0)
         for i in progress(range(0, nsteps, self.skip), total=nsteps // self.skip):
             # If cell changes we have to update the wave vectors
             if variable_cell:
@@ -191,7 +191,7 @@ class StructureFactorFast(StructureFactorLegacy):
         cnt = [0 for k in kgrid]
         rho_av = [complex(0., 0.) for k in kgrid]
         rho2_av = [complex(0., 0.) for k in kgrid]
-        variable_cell = is_cell_variable(self.trajectory)
+        variable_cell = is_cell_variable(self.trajectory, tests=0)
         for i in range(0, nsteps, self.skip):
             # If cell changes we have to update the wave vectors
             if variable_cell:
-- 
2.43.0


From 638615c6b594f98aa81ffc2f3293832fb51ff370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 10/83] fix: kvectors with large positive components exceed the
 tabulated grid

---
 atooms/postprocessing/fourierspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 9e8a36f..d582ca3 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -321,10 +321,10 @@ class FourierSpaceCorrelation(Correlation):
                 rounded = numpy.rint(kvec / self.k0)
                 self._kvectors[-1].append(numpy.array(rounded, dtype=int))
                 # Update shift
-                shift = min(shift, int(min(rounded)))
+                shift = max(shift, int(max(abs(rounded))))
 
         # Shift to make all array indices start from 0
-        self._koffset = int(abs(shift)) + 1
+        self._koffset = shift + 1
         for klist in self._kvectors:
             for i in range(len(klist)):
                 klist[i] = tuple(klist[i] + self._koffset)
-- 
2.43.0


From 25b0523b1b8c4493590c91bcef9ae24469d34e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 11/83] fix: optimized structure factor uses wrong wave-vectors
 and ignores the second group and weights

---
 atooms/postprocessing/sk.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index a69edfc..7ed9111 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -184,6 +184,10 @@ class StructureFactorFast(StructureFactorLegacy):
             _log.error('f90 wrapper missing or not functioning')
             raise
 
+        # The f90 kernel only handles unweighted densities in 3d
+        if self._weight is not None or len(self.k0) != 3:
+            return super(StructureFactorFast, self)._compute()
+
         nsteps = len(self._pos_0)
         kgrid = self.kgrid
 
@@ -205,7 +209,6 @@ class StructureFactorFast(StructureFactorLegacy):
                 expo_1 = expo_0
             else:
                 # Cross correlation
-                # TODO: cross correlation wont work
                 expo_0 = expo_sphere(self.k0, self._koffset, self._pos_0[i])
                 expo_1 = expo_sphere(self.k0, self._koffset, self._pos_1[i])
 
@@ -221,12 +224,17 @@ class StructureFactorFast(StructureFactorLegacy):
                 ikvec = numpy.ndarray((3, len(klist)), order='F', dtype=numpy.int32)
                 for i, kvec in enumerate(klist):
                     ikvec[:, i] = kvec
-                rho = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
-                fourierspace_module.sk_bare(expo_0, ikvec, rho)
-                rho_0 = rho
-                rho_1 = rho
+                # Indices start from 1 in f90
+                ikvec += 1
+                rho_0 = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
+                fourierspace_module.sk_bare(expo_0, ikvec, rho_0)
+                if expo_0 is expo_1:
+                    rho_1 = rho_0
+                else:
+                    rho_1 = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
+                    fourierspace_module.sk_bare(expo_1, ikvec, rho_1)
                 rho2_av[k] += numpy.sum(rho_0 * rho_1.conjugate())
-                cnt[k] += rho.shape[0]
+                cnt[k] += rho_0.shape[0]
 
         # Normalization.
         npart_0 = sum([p.shape[0] for p in self._pos_0]) / float(len(self._pos_0))
-- 
2.43.0


From 6dc75060223304fc1b2efc87cb760379802ed1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 12/83] fix: input k-grids are modified in place, kgrid set
 after construction is ignored

---
 atooms/postprocessing/fourierspace.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index d582ca3..4e1c7df 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -176,6 +176,7 @@ class FourierSpaceCorrelation(Correlation):
         self.kmax = kmax
         self.ksamples = ksamples
         self.kgrid = None
+        self._kgrid = None
         self.k0 = []
         self._kvectors = []
         self._koffset = 0
@@ -190,17 +191,23 @@ class FourierSpaceCorrelation(Correlation):
         # We skip setup if the kgrid is already set up and we are not
         # asking to rebuild it (for a sample != 0).
         # This allows to copy over the kvectors and kgrid
-        if sample == 0 and self.kgrid is not None:
+        if sample == 0 and len(self._kvectors) > 0:
             return
 
         # We subclass compute to define k grid at compute time
         # Find k-norms grid and store it a self.kgrid (the norms are sorted)
-        variables = self.short_name.split('(')[1][:-1]
-        variables = variables.split(',')
-        if len(variables) > 1:
-            self.kgrid = self.grid[variables.index('k')]
-        else:
-            self.kgrid = self.grid
+        # The requested grid is kept apart, because kgrid is redefined below
+        # and must not share memory with the input grid
+        if self._kgrid is None:
+            variables = self.short_name.split('(')[1][:-1]
+            variables = variables.split(',')
+            if self.kgrid is not None:
+                self._kgrid = self.kgrid
+            elif len(variables) > 1:
+                self._kgrid = self.grid[variables.index('k')]
+            else:
+                self._kgrid = self.grid
+        self.kgrid = list(self._kgrid) if self._kgrid is not None else None
 
         # Smallest kvector
         self.k0 = 2*math.pi/self.trajectory[sample].cell.side
-- 
2.43.0


From 43c667224cd2c14fb91dcee4e5037e87b09d7271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 13/83] fix: g(r) kernels write beyond the histogram and the
 distances buffer

---
 atooms/postprocessing/realspace.f90 | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/atooms/postprocessing/realspace.f90 b/atooms/postprocessing/realspace.f90
index 835f3e1..10ee5d9 100644
--- a/atooms/postprocessing/realspace.f90
+++ b/atooms/postprocessing/realspace.f90
@@ -287,7 +287,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -332,7 +332,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -347,7 +347,7 @@ contains
     integer(8), intent(in)    :: neighbors(:,:), number_of_neighbors(:)
     integer(8), intent(inout) :: hist(:)
     real(8), intent(inout) :: bins(:)
-    real(8)                   :: distances(size(positions,2))  ! stack
+    real(8)                   :: distances(size(other,2))  ! stack
     real(8), intent(in)       :: box(:)
     real(8)    :: dist(size(box)), dist_sq, pos(size(box)), rmax, hbox(size(box))
     integer(8) :: i, j, ii, jj, bin, k, delta
@@ -388,7 +388,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -433,7 +433,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -480,7 +480,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -520,7 +520,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -567,7 +567,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -607,7 +607,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
-- 
2.43.0


From e87bdde9ba57912d5bc1efea2ef2119024a2286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 14/83] fix: neighbors_list_distinct mixes the neighbors of the
 two sets

---
 atooms/postprocessing/realspace.f90 | 2 --
 1 file changed, 2 deletions(-)

diff --git a/atooms/postprocessing/realspace.f90 b/atooms/postprocessing/realspace.f90
index 10ee5d9..f34b611 100644
--- a/atooms/postprocessing/realspace.f90
+++ b/atooms/postprocessing/realspace.f90
@@ -199,9 +199,7 @@ contains
           rijsq = dot_product(rij,rij)
           if (rijsq < rcutsq(isp,jsp)) then
              nn(i) = nn(i) + 1
-             nn(j) = nn(j) + 1
              neigh(i,nn(i)) = j+delta
-             neigh(j,nn(j)) = i+delta
           end if
        end do
     end do
-- 
2.43.0


From 46ae4ef74afcee8d052bd5cede54c6a94774ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 15/83] fix: linked cells use numpy.int, which does not exist
 anymore

---
 atooms/postprocessing/linkedcells.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index d9f496a..9459705 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -123,7 +123,7 @@ class LinkedCells(object):
 
     def _index(self, pos):
         x = ((pos + self.hbox) / self.box_cell)
-        return x.astype(numpy.int)
+        return x.astype(int)
 
     def on_border(self, pos):
         index = list(self._index(pos))
@@ -179,7 +179,7 @@ class LinkedCells(object):
         if as_array:
             npart = len(self.neighbors)
             number_of_neighbors = numpy.array(self.number_of_neighbors)
-            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=numpy.int)
+            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=int)
             for ipart in range(len(self.neighbors)):
                 neighbors_array[ipart, 0:len(self.neighbors[ipart])] = self.neighbors[ipart]
             self.neighbors = neighbors_array
-- 
2.43.0


From 18f9a68b034969f2193e4081df921054d92906cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 16/83] fix: linked cells ignore changes of the box

---
 atooms/postprocessing/linkedcells.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 9459705..dadea75 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -16,7 +16,7 @@ class LinkedCells(object):
         self._is_adjusted = False
 
     def adjust(self, box, newton, periodic=None):
-        self.box = box
+        self.box = numpy.array(box)
         self.hbox = box / 2
         self.n_cell = (box / self.rcut).astype(int)
         self.box_cell = self.box / self.n_cell
@@ -135,7 +135,8 @@ class LinkedCells(object):
         return found
 
     def compute(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
-        if not self._is_adjusted:
+        # Adjust the cells once, unless the box has changed
+        if not self._is_adjusted or numpy.any(self.box != box):
             self.adjust(box, newton=other is None and newton, periodic=periodic)
             self._is_adjusted = True
         # We only need positions here but how can we be sure that
-- 
2.43.0


From ec7967b59cdf3afc033c6df6ed664c4ca73ec94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 17/83] fix: linked cells cannot handle particles outside the
 box

---
 atooms/postprocessing/linkedcells.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index dadea75..68287a4 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -22,6 +22,7 @@ class LinkedCells(object):
         self.box_cell = self.box / self.n_cell
         if periodic is None:
             periodic = numpy.array([True] * len(box))
+        self.periodic = periodic
         self._map(newton, periodic)
 
     def _map(self, newton, periodic):
@@ -122,8 +123,11 @@ class LinkedCells(object):
         self._neigh_cell = new_neigh_cell
 
     def _index(self, pos):
-        x = ((pos + self.hbox) / self.box_cell)
-        return x.astype(int)
+        x = numpy.floor((pos + self.hbox) / self.box_cell).astype(int)
+        # Particles on the boundary or outside the box belong to the
+        # cell of their periodic image or, along non-periodic
+        # directions, to the cell next to the border
+        return numpy.where(self.periodic, x % self.n_cell, numpy.clip(x, 0, self.n_cell - 1))
 
     def on_border(self, pos):
         index = list(self._index(pos))
-- 
2.43.0


From be74daaf0111484649e46df03bde88e05fe9ff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 18/83] fix: linked cells without Newton's third law miss
 neighbors in the same cell

---
 atooms/postprocessing/linkedcells.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 68287a4..73b3396 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -167,8 +167,10 @@ class LinkedCells(object):
             # Initialize an empty list
             neighbors = []
             # Start with particles in the cell of particle ipart
-            if other is None:
+            if other is None and newton:
                 neighbors += [_ for _ in particle_in_cell[icell] if _ > ipart]
+            elif other is None:
+                neighbors += [_ for _ in particle_in_cell[icell] if _ != ipart]
             else:
                 neighbors += particle_in_cell[icell]
                 # try:
-- 
2.43.0


From 823d9cfc543fd7175f5249bac0503afc49adabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 19/83] fix: integer bin width of g(r) is taken as a number of
 bins

---
 atooms/postprocessing/gr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 742183e..edba9bf 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -90,7 +90,7 @@ class RadialDistributionFunctionLegacy(Correlation):
 
     def __init__(self, trajectory, rgrid=None, norigins=None, dr=0.04, ndim=-1, rmax=-1.0):
         Correlation.__init__(self, trajectory, rgrid, norigins=norigins)
-        self.dr = dr
+        self.dr = float(dr)  # linear_grid() would interpret an integer as a number of points
         self.rmax = rmax
         """
         Limit distance binning up to `rmax`. It may enable linked cells if
-- 
2.43.0


From 598a9bf82aaaba0399a6472aa78c0a0bec7895ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 20/83] fix: wrong volume of the shells of g(r) in odd
 dimensions

---
 atooms/postprocessing/gr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index edba9bf..e31fbb3 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -165,7 +165,7 @@ class RadialDistributionFunctionLegacy(Correlation):
             vol = 4 * math.pi / 3.0 * (r[1:]**3 - r[:-1]**3)
         else:
             from math import gamma
-            n2 = int(float(ndims) / 2)
+            n2 = float(ndims) / 2
             vol = math.pi**n2 * (r[1:]**ndims-r[:-1]**ndims) / gamma(n2+1)
         rho = N_1 / volume
         if self._pos_0 is self._pos_1:
@@ -344,7 +344,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             vol = 4 * math.pi / 3.0 * (r[1:]**3 - r[:-1]**3)
         else:
             from math import gamma
-            n2 = int(float(ndims) / 2)
+            n2 = float(ndims) / 2
             vol = math.pi**n2 * (r[1:]**ndims-r[:-1]**ndims) / gamma(n2+1)
 
         rho = N_1 / volume
-- 
2.43.0


From c837e47ac644e3c90f4ac34d618b60d8828b3bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 21/83] fix: the last bin of the requested grid is missing from
 g(r)

---
 atooms/postprocessing/gr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index e31fbb3..a2c7013 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -331,7 +331,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         
         # Normalization
         # Array r is used to compute shells, we thus use the bin boundaries
-        r = bins - (bins[1] - bins[0]) / 2
+        r = numpy.append(bins, bins[-1] + dr) - dr / 2
         N_0 = numpy.average(N_0)
         N_1 = numpy.average(N_1)
         if system.cell is not None:
@@ -356,8 +356,8 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         gr = numpy.average(gr_all, axis=0)
 
         # Normalize and clean up boundaries
-        self.value = gr[:-1] / norm
-        self.grid = bins[:-1]
+        self.value = gr / norm
+        self.grid = bins
         if remove_self_term:
             self.value[0] = self.value[1]
 
-- 
2.43.0


From ef1bdbe48733abd602ee943f14c57005107fc51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 22/83] fix: g(r) on a user grid not starting from dr/2 is
 reported at other distances

---
 atooms/postprocessing/gr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index a2c7013..48a33f7 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -224,6 +224,9 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         ndims = system.number_of_dimensions
         self._setup_grid(system)
         dr = self.grid[1] - self.grid[0]
+        # The f90 kernels use bins of width dr starting from r=0
+        if system.cell is not None and numpy.any(abs(numpy.array(self.grid) / dr - numpy.arange(len(self.grid)) - 0.5) > 1e-6):
+            return super(RadialDistributionFunctionFast, self)._compute()
         gr = numpy.zeros(len(self.grid), dtype=int)
         bins = numpy.array(self.grid)
 
-- 
2.43.0


From d9fad555d0a66aebda5edc3ebb717db106fc9f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 23/83] fix: g(r) between overlapping groups counts particles
 as their own neighbors

---
 atooms/postprocessing/correlation.py |  4 ++++
 atooms/postprocessing/gr.py          | 13 +++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 445a211..c7419a2 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -229,6 +229,8 @@ class Correlation(object):
         self._vel_0, self._vel_1 = [], []
         self._ids_0, self._ids_1 = [], []
         self._pos_unf_0, self._pos_unf_1 = [], []
+        # True for the particles of group 0 that also belong to group 1
+        self._common = []
 
         # Weights
         self._weight = None
@@ -468,6 +470,8 @@ class Correlation(object):
             for s in progress(self.trajectory):
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                 s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
+                particle_1 = set(id(p) for p in s1.particle)
+                self._common.append(numpy.array([id(p) in particle_1 for p in s0.particle], dtype=bool))
                 if 'pos' in self.phasespace:
                     self._pos_0.append(s0.dump('pos'))
                     self._pos_1.append(s1.dump('pos'))
diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 48a33f7..20ab7ef 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -155,6 +155,8 @@ class RadialDistributionFunctionLegacy(Correlation):
                 gr = pairs_newton_hist(gr_kernel, self._pos_0[i], self._pos_1[i], side, r)
             else:
                 gr = pairs_hist(gr_kernel, self._pos_0[i], self._pos_1[i], side, r)
+                # Remove self pairs, in case some particles belong to both groups
+                gr -= numpy.histogram(numpy.zeros(numpy.sum(self._common[i])), r)[0]
             gr_all.append(gr)
 
         # Normalization
@@ -265,7 +267,8 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
 
             # Switch between self and distinct calculation
             distinct = pos_0 is not pos_1
-            remove_self_term = False
+            # Particles that belong to both groups would yield spurious pairs at r=0
+            common = self._common[i] if distinct else numpy.ones(len(pos_0), dtype=bool)
 
             # Store side
             system = self.trajectory.read(i)
@@ -278,9 +281,9 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
                 # which are 1 is particles are on the surface and 0 otherwise
                 mask = compute.on_surface_c(pos_0, system.cell.side, self.rmax)
                 pos_0 = pos_0[mask == 0, :]
+                common = common[mask == 0]
                 # Force distinct calculation. This gives a spurious signal at r=0, which we remove
                 distinct = True
-                remove_self_term = True
 
             # When using linked cells, we precalculate the neighbors
             # This will only happen if the system is within a cell (and all directions are periodic)
@@ -324,6 +327,10 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
                 else:
                     compute.gr_neighbors_distinct_c('C', pos_0, pos_1, neighbors, number_of_neighbors, side, dr, gr, bins)
 
+            # Remove self pairs
+            if distinct:
+                gr[0] -= numpy.sum(common)
+
             # Damned copies in python
             gr_all.append(gr.copy())
 
@@ -361,8 +368,6 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         # Normalize and clean up boundaries
         self.value = gr / norm
         self.grid = bins
-        if remove_self_term:
-            self.value[0] = self.value[1]
 
         # Restrict distances to L/2 (in last frame) or rmax
         if self.rmax > 0:
-- 
2.43.0


From 4e3afc1bb25034f4ed5c76c0c36a9e8c8506169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 24/83] fix: fast g(r) is wrong when positions are not folded
 in the central cell

---
 atooms/postprocessing/gr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 20ab7ef..ad45039 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -315,6 +315,10 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             else:
                 N_1.append(pos_0.shape[0])
 
+            # The f90 kernels only handle the images next to the central cell
+            pos_0 = pos_0 - numpy.rint(pos_0 / side) * side
+            pos_1 = pos_1 - numpy.rint(pos_1 / side) * side
+
             # Compute g(r)
             if not distinct:
                 if linkedcells is None:
-- 
2.43.0


From daf6a0a1f14d56d237e711a61dc02323f23aac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 25/83] fix: g(r) in non-periodic cells fails if all particles
 of a frame are close to the surface

---
 atooms/postprocessing/gr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index ad45039..19e490c 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -282,6 +282,8 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
                 mask = compute.on_surface_c(pos_0, system.cell.side, self.rmax)
                 pos_0 = pos_0[mask == 0, :]
                 common = common[mask == 0]
+                if len(pos_0) == 0:
+                    continue
                 # Force distinct calculation. This gives a spurious signal at r=0, which we remove
                 distinct = True
 
-- 
2.43.0


From 03f07ab0605f60a44b6eb1407c4268bb9e01bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 26/83] fix: computing a correlation function again gives wrong
 results

---
 atooms/postprocessing/chi4t.py        |  6 ++++--
 atooms/postprocessing/correlation.py  | 20 +++++++++++++++++++-
 atooms/postprocessing/fourierspace.py |  4 +++-
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index c7d615d..474a824 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -55,7 +55,8 @@ class Chi4SelfOverlap(Correlation):
             return self_overlap(x, y, self.a_square).sum()
 
         side = self.trajectory.read(0).cell.side
-        self.grid = []
+        self.grid, self.value = [], []
+        self.average.value, self.variance.value = [], []
         # At this stage, we can copy the tags
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
@@ -107,7 +108,8 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
         def f(x, y):
             return compute.self_overlap(x, y, numpy.array(self.a_square))
 
-        self.grid = []
+        self.grid, self.value = [], []
+        self.average.value, self.variance.value = [], []
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index c7419a2..b1187cf 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -4,6 +4,7 @@
 """Base correlation function."""
 
 import os
+import copy
 import logging
 from collections import defaultdict
 
@@ -202,6 +203,7 @@ class Correlation(object):
         self._fix_cm = fix_cm
         self._unfolded = None
         self.grid = grid
+        self._input_grid, self._output_grid = None, None
         self.value = []
         self.analysis = {}
         self.comments = None  # can be modified by user at run time
@@ -312,7 +314,15 @@ class Correlation(object):
         Dump positions and/or velocities at different time frames as a
         list of numpy array.
         """
-        # TODO: what happens if we call compute twice?? Shouldnt we reset the arrays?
+        # Reset the arrays, in case the correlation is computed again
+        self._unfolded = None
+        self._pos, self._vel, self._ids, self._pos_unf = [], [], [], []
+        self._pos_0, self._pos_1 = [], []
+        self._vel_0, self._vel_1 = [], []
+        self._ids_0, self._ids_1 = [], []
+        self._pos_unf_0, self._pos_unf_1 = [], []
+        self._common = []
+
         # Ensure phasespace is a list.
         # It may not be a class variable anymore after this
         if not isinstance(self.phasespace, list) and \
@@ -406,6 +416,8 @@ class Correlation(object):
         if self._weight is None:
             return
 
+        self._weight = []
+
         # Dump arrays of weights
         for s in progress(self.trajectory):
             # Apply filter if there is one
@@ -502,6 +514,11 @@ class Correlation(object):
         This method sets the `self.grid` and `self.value` variables,
         which are also returned.
         """
+        # If the correlation is computed again, start from the input grid
+        if self._input_grid is not None and self.grid is self._output_grid:
+            self.grid = self._input_grid
+        self._input_grid = copy.copy(self.grid)
+
         _log.info('setup arrays for %s', self.tag_description)
         t = [Timer(), Timer()]
         t[0].start()
@@ -515,6 +532,7 @@ class Correlation(object):
         t[1].start()
         self._compute()
         t[1].stop()
+        self._output_grid = self.grid
 
         _log.info('output file %s', self._output_file)
         _log.info('done %s for %s in %.1f sec [setup:%.0f%%, compute: %.0f%%]',
diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 4e1c7df..b2b6a71 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -177,6 +177,7 @@ class FourierSpaceCorrelation(Correlation):
         self.ksamples = ksamples
         self.kgrid = None
         self._kgrid = None
+        self._sample = 0
         self.k0 = []
         self._kvectors = []
         self._koffset = 0
@@ -191,8 +192,9 @@ class FourierSpaceCorrelation(Correlation):
         # We skip setup if the kgrid is already set up and we are not
         # asking to rebuild it (for a sample != 0).
         # This allows to copy over the kvectors and kgrid
-        if sample == 0 and len(self._kvectors) > 0:
+        if sample == 0 and self._sample == 0 and len(self._kvectors) > 0:
             return
+        self._sample = sample
 
         # We subclass compute to define k grid at compute time
         # Find k-norms grid and store it a self.kgrid (the norms are sorted)
-- 
2.43.0


From ada482c7bf36ab5d9e81b9d45013175e5761256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 27/83] fix: Fourier space correlations do not return grid and
 value

---
 atooms/postprocessing/fourierspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index b2b6a71..584a0c5 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -186,7 +186,7 @@ class FourierSpaceCorrelation(Correlation):
         # Setup grid once. If cell changes we'll call it again
         self._setup()
         # Now compute
-        super(FourierSpaceCorrelation, self).compute()
+        return super(FourierSpaceCorrelation, self).compute()
 
     def _setup(self, sample=0):
         # We skip setup if the kgrid is already set up and we are not
-- 
2.43.0


From e06e98afd51d44e74c288d9fcc5580158479cfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 28/83] fix: one filter too many is accepted

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index b1187cf..81a6b6c 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -294,7 +294,7 @@ class Correlation(object):
 
     def add_filter(self, cbk, *args, **kwargs):
         """Add filter callback `cbk` along with positional and keyword arguments"""
-        if len(self._cbk) > self.nbodies:
+        if len(self._cbk) >= self.nbodies:
             raise ValueError('number of filters cannot exceed n. of bodies')
         self._cbk.append(cbk)
         self._cbk_args.append(args)
-- 
2.43.0


From 12208fce9f6246d224289fbcb767512b9020ea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 29/83] fix: filters modify the attributes of the particles

---
 atooms/postprocessing/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/filter.py b/atooms/postprocessing/filter.py
index 72efb0c..b9ed07b 100644
--- a/atooms/postprocessing/filter.py
+++ b/atooms/postprocessing/filter.py
@@ -28,7 +28,8 @@ def Filter(correlation, condition):
         s = copy.copy(system)
         s.particle = []
         for particle in system.particle:
-            if eval(condition, particle.__dict__):
+            # Use a copy, because eval() adds __builtins__ to its globals
+            if eval(condition, dict(particle.__dict__)):
                 s.particle.append(particle)
         return s
 
-- 
2.43.0


From b83e3501b2043aae13ee33465e037ec20bf12fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 30/83] fix: fixing the center of mass modifies trajectories
 stored in memory

---
 atooms/postprocessing/correlation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 81a6b6c..e812ea5 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -387,6 +387,9 @@ class Correlation(object):
                     # methods work with particle.position
                     # TODO: can be revised with atooms 3.4.0
                     if self._fix_cm:
+                        # Do not modify the particles of the trajectory,
+                        # which may be stored in memory
+                        s = copy.deepcopy(s)
                         # Compute CM using unfolded positions, which is safe
                         cm = numpy.zeros_like(s.particle[0].position_unfolded)
                         mtot = 0.0
-- 
2.43.0


From 8e0d30b9091e190324081121bed2bd9cf281da17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 31/83] fix: the center of mass is not fixed in two-body
 correlations with two filters

---
 atooms/postprocessing/correlation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index e812ea5..1e135d9 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -481,8 +481,13 @@ class Correlation(object):
             return
 
         if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:
+            # Fix the center of mass if requested, as in _setup_arrays_onebody()
+            th = self.trajectory
+            if 'pos' in self.phasespace and self._fix_cm:
+                th = Unfolded(self.trajectory, fixed_cm=True)
+                th.add_callback(fold)
             ids = distinct_species(self.trajectory[0].particle)
-            for s in progress(self.trajectory):
+            for s in progress(th):
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                 s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
                 particle_1 = set(id(p) for p in s1.particle)
@@ -503,7 +508,7 @@ class Correlation(object):
 
         # Dump unfolded positions if requested
         if 'pos-unf' in self.phasespace:
-            for s in progress(Unfolded(self.trajectory)):
+            for s in progress(Unfolded(self.trajectory, fixed_cm=self._fix_cm)):
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                 s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
                 self._pos_unf_0.append(s0.dump('pos'))
-- 
2.43.0


From 03fced80df166ebc79a7893b2582a4dfcbf140c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 32/83] fix: api.msd() does not fix the center of mass in
 partial correlations

---
 atooms/postprocessing/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index d4ad0a7..27c667d 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -165,7 +165,8 @@ def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.MeanSquareDisplacement, ids, th, tgrid=t_grid,
                     norigins=global_args['norigins'], sigma=sigma,
-                    rmax=rmsd_max, no_offset=no_offset).do(update=global_args['update'])
+                    rmax=rmsd_max, no_offset=no_offset,
+                    fix_cm=fix_cm).do(update=global_args['update'])
 
 def vacf(input_file, tmax=-1.0, tmax_fraction=0.10,
          tsamples=30, func='linear', *input_files, **global_args):
-- 
2.43.0


From f71a9b64714f81399524e6199d7142f1139dcbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 33/83] fix: correlations of trajectories without a path cannot
 be written or updated

---
 atooms/postprocessing/correlation.py | 2 ++
 atooms/postprocessing/fkt.py         | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 1e135d9..88c0f10 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -303,6 +303,8 @@ class Correlation(object):
     def need_update(self):
         """Check if the trajectory file is newer than the output file"""
         need = True
+        if self._output_file is None:
+            return need
         if os.path.exists(self._output_file) and self._output_file != '/dev/stdout':
             if os.path.getmtime(self.trajectory.filename) < \
                os.path.getmtime(self._output_file):
diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index 6912971..c49a5e6 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -167,7 +167,7 @@ class SelfIntermediateScatteringLegacy(IntermediateScatteringBase):
 
     def write(self):
         Correlation.write(self)
-        if self._output_file != '/dev/stdout':
+        if self._output_file not in [None, '/dev/stdout'] and len(self.analysis) > 0:
             with open(self._output_file + '.tau', 'w') as out:
                 _write_tau(out, self.analysis)
 
@@ -370,6 +370,6 @@ class IntermediateScattering(IntermediateScatteringBase):
 
     def write(self):
         Correlation.write(self)
-        if self._output_file != '/dev/stdout':
+        if self._output_file not in [None, '/dev/stdout'] and len(self.analysis) > 0:
             with open(self._output_file + '.tau', 'w') as out:
                 _write_tau(out, self.analysis)
-- 
2.43.0


From 4e867168e15ed017e5b4e0afac034d9a2791c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 34/83] fix: files with a single entry cannot be read back

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 88c0f10..af890c7 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -589,7 +589,7 @@ class Correlation(object):
     def read(self):
         """Read correlation function from existing file"""
         with open(self._output_file, 'r') as inp:
-            x = numpy.loadtxt(inp, unpack=True)
+            x = numpy.loadtxt(inp, unpack=True, ndmin=2)
             if len(x) == 3:
                 _log.warn("cannot read 3-columns files yet in %s", self._output_file)
             elif len(x) == 2:
-- 
2.43.0


From 0778879fb047c89a594a8f847b5f42ed95ed8b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 35/83] fix: norigins does not accept fractions as strings, nor
 more origins than blocks

---
 atooms/postprocessing/helpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 9010633..2c9e343 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -157,8 +157,8 @@ def adjust_skip(trajectory, n_origins=None):
             skip = 1 * trajectory.block_size  # all origins
         elif float(n_origins) > 1:
             nbl = len(trajectory.steps) // trajectory.block_size
-            skip = int(nbl / float(n_origins)) * trajectory.block_size
-        elif int(n_origins) == 1:
+            skip = max(1, int(nbl / float(n_origins))) * trajectory.block_size
+        elif int(float(n_origins)) == 1:
             skip = len(trajectory.steps)
         else:
             # A float between 0 and 1
@@ -177,7 +177,7 @@ def adjust_skip(trajectory, n_origins=None):
             skip = trajectory.block_size
 
     # Make sure the skip is an multiple of block size
-    if skip % trajectory.block_size != 0 and int(n_origins) != 1:
+    if skip % trajectory.block_size != 0 and int(float(n_origins)) != 1:
         raise ValueError('wrong skip {} {}'.format(skip, trajectory.block_size))
 
     # Normalize anyway and make it even
-- 
2.43.0


From bdb535487ce259f37b4cf443d71763b7f8089559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 36/83] fix: default time grid of the velocity autocorrelation

---
 atooms/postprocessing/vacf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index b0a7657..2f23285 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -23,8 +23,8 @@ class VelocityAutocorrelation(Correlation):
     def __init__(self, trajectory, tgrid=None, tsamples=30, norigins=None):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
-            self.grid = linear_grid(0.0, trajectory.total_time * 0.10, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+            self.grid = linear_grid(0.0, self.trajectory.total_time * 0.10, tsamples)
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
 
     def _compute(self):
         def f(x, y):
-- 
2.43.0


From 72cb7f25e3267c7ace65b9cc92cccffe2a82af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 37/83] fix: velocity autocorrelation ignores norigins

---
 atooms/postprocessing/vacf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index 2f23285..0cf33e6 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -30,7 +30,7 @@ class VelocityAutocorrelation(Correlation):
         def f(x, y):
             return numpy.sum(x * y) / float(x.shape[0])
         self.grid, self.value = gcf_offset(f, self._discrete_tgrid,
-                                           self.trajectory.block_size,
+                                           self.skip,
                                            self.trajectory.steps,
                                            self._vel)
         self.grid = [ti * self.trajectory.timestep for ti in self.grid]
-- 
2.43.0


From 3f7d8662148c1812c2930919ee79bd1b066e80e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 38/83] fix: default time grid of the self overlap when the
 trajectory is a path

---
 atooms/postprocessing/qt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/qt.py b/atooms/postprocessing/qt.py
index 111f088..addd2e0 100644
--- a/atooms/postprocessing/qt.py
+++ b/atooms/postprocessing/qt.py
@@ -73,7 +73,7 @@ class SelfOverlap(Correlation):
                  tsamples=60):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if tgrid is None:
-            self.grid = logx_grid(0.0, trajectory.total_time * 0.75, tsamples)
+            self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
         self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
         self.a_square = a**2
 
-- 
2.43.0


From 1f7fbbe0c61fb1f4b6b8507316d405f9471c064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 39/83] fix: non-Gaussian parameter assumes three dimensions

---
 atooms/postprocessing/alpha2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/alpha2.py b/atooms/postprocessing/alpha2.py
index 9dc79f5..1c96532 100644
--- a/atooms/postprocessing/alpha2.py
+++ b/atooms/postprocessing/alpha2.py
@@ -34,7 +34,8 @@ class NonGaussianParameter(Correlation):
             dx2 = (x - y)**2
             dr2 = numpy.sum(dx2) / float(x.shape[0])
             dr4 = numpy.sum(numpy.sum(dx2, axis=1)**2) / float(x.shape[0])
-            return 3 * dr4 / (5 * dr2**2) - 1
+            ndims = x.shape[1]
+            return ndims * dr4 / ((ndims + 2) * dr2**2) - 1
 
         self.grid, self.value = gcf_offset(alpha_2, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._pos_unf)
-- 
2.43.0


From c89a7fd9491b46943758e8d4367ad440de9a37b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 40/83] fix: bond angles write beyond the neighbors array with
 more than 50 neighbors

---
 atooms/postprocessing/ba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 2b9a724..15bc85a 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -95,7 +95,7 @@ class BondAngleDistribution(Correlation):
             # system = change_species(system, 'F')  # species are in fortran style
             # ids = numpy.array(system.dump('spe'), dtype=numpy.int32)
             nn = numpy.array(0, dtype=numpy.int32)
-            neighbors = numpy.ndarray(50, dtype=numpy.int32)
+            neighbors = numpy.ndarray(len(self._pos_1[i]), dtype=numpy.int32)
             for idx in range(len(self._pos_0[i])):
                 isp = self._ids_0[i][idx]
                 compute.neighbors('C', side, self._pos_0[i][idx],
-- 
2.43.0


From f5e1100994ff8765d8546b90953a86ee69d48a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 41/83] fix: bond angle distribution overwrites the output
 files of g(r)

---
 atooms/postprocessing/ba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 15bc85a..04dd2eb 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -28,7 +28,7 @@ def _default_rcut(th):
 
     ids = distinct_species(th[0].particle)
     gr = Partial(RadialDistributionFunction, ids, th, dr=0.1)
-    gr.do(update=False)
+    gr.compute()
     rcut = {}
     for isp in ids:
         for jsp in ids:
-- 
2.43.0


From a6cc6f7fd6cb59d3244aa6b253e8b78c7961da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 42/83] fix: integer bin width of the bond angle distribution
 is taken as a number of bins

---
 atooms/postprocessing/ba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 04dd2eb..a3cf890 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -59,7 +59,7 @@ class BondAngleDistribution(Correlation):
 
     def __init__(self, trajectory, norigins=None, dtheta=4.0, rcut=None):
         Correlation.__init__(self, trajectory, None, norigins=norigins)
-        self.grid = linear_grid(0.0, 180.0, dtheta)  # reassign grid anyway
+        self.grid = linear_grid(0.0, 180.0, float(dtheta))  # reassign grid anyway
         self.rcut = rcut
 
     def _compute(self):
-- 
2.43.0


From f63a9f08c026cd7d151c7814ba4de848efd3713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 43/83] fix: straight angles are missing from the bond angle
 distribution

---
 atooms/postprocessing/ba.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index a3cf890..c1d8b36 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -112,6 +112,9 @@ class BondAngleDistribution(Correlation):
 
         # Normalization
         hist = numpy.sum(hist_all, axis=0)
+        if abs(self.grid[-1] - 180.0) < 1e-6 * dtheta:
+            # Straight angles belong to the last bin
+            hist[-2] += hist[-1]
         norm = float(numpy.sum(hist[:-1]))
         self.grid = (numpy.array(self.grid[:-1]) + numpy.array(self.grid[1:])) / 2.0
         self.value = hist[:-1] / (norm * dtheta)
-- 
2.43.0


From 8050d5279b9dbb0c22fb4348c1344511425924c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 44/83] fix: bond angles are wrong when positions are not
 folded in the central cell

---
 atooms/postprocessing/ba.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index c1d8b36..54633c8 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -96,16 +96,19 @@ class BondAngleDistribution(Correlation):
             # ids = numpy.array(system.dump('spe'), dtype=numpy.int32)
             nn = numpy.array(0, dtype=numpy.int32)
             neighbors = numpy.ndarray(len(self._pos_1[i]), dtype=numpy.int32)
-            for idx in range(len(self._pos_0[i])):
+            # The f90 kernels only handle the images next to the central cell
+            pos_0 = self._pos_0[i] - numpy.rint(self._pos_0[i] / side) * side
+            pos_1 = self._pos_1[i] - numpy.rint(self._pos_1[i] / side) * side
+            for idx in range(len(pos_0)):
                 isp = self._ids_0[i][idx]
-                compute.neighbors('C', side, self._pos_0[i][idx],
-                                  self._pos_1[i].transpose(),
+                compute.neighbors('C', side, pos_0[idx],
+                                  pos_1.transpose(),
                                   self._ids_1[i],
                                   self.rcut[isp, :],
                                   nn, neighbors)
                 # print idx, self._pos_1[i].shape, neighbors[0: nn], set(self._ids_1[i])
-                compute.bond_angle(self._pos_0[i][idx, :],
-                                   self._pos_1[i].transpose(),
+                compute.bond_angle(pos_0[idx, :],
+                                   pos_1.transpose(),
                                    neighbors[0: nn], side, dtheta,
                                    hist_one)
                 hist_all.append(hist_one.copy())
-- 
2.43.0


From 70500e6f9074c379924bc2bf3df4719971c7764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 45/83] fix: logx_grid() from zero does not reach the upper
 bound, and decreases if this is less than one

---
 atooms/postprocessing/helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 2c9e343..f81bcc7 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -21,8 +21,10 @@ def logx_grid(x1, x2, n):
         xx = (x2 / x1)**(1.0 / n)
         return [x1] + [x1 * xx**(i+1) for i in range(1, n)]
     else:
-        xx = x2**(1.0/n)
-        return [x1] + [xx**(i+1) - 1 for i in range(1, n)]
+        # the shape is a*(x^n-1), where x>1 and the last point is x2
+        xx = max(x2, 2.0)**(1.0/n)
+        a = x2 / (xx**n - 1)
+        return [x1] + [a * (xx**(i+1) - 1) for i in range(1, n)]
 
 
 def ifabsmm(x, f):
-- 
2.43.0


From ec3c46ba6e0de02ba2b63d6b797a1627d85c3ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 46/83] fix: linear_grid() may miss the upper bound because of
 rounding

---
 atooms/postprocessing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index f81bcc7..39c1220 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -10,7 +10,7 @@ def linear_grid(min_val, max_val, delta):
         else:
             delta = 0.0
     else:
-        n = int((max_val - min_val) / delta) + 1
+        n = int((max_val - min_val) / delta + 1e-9) + 1
     return [min_val + i*delta for i in range(n)]
 
 
-- 
2.43.0


From e315472853b716649a67aa629966d145c4db04b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 47/83] fix: acf.py does not start

---
 bin/acf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/acf.py b/bin/acf.py
index 2f58401..983a560 100755
--- a/bin/acf.py
+++ b/bin/acf.py
@@ -2,7 +2,7 @@
 
 import sys
 import numpy
-import atooms.postprocessing
+import atooms.postprocessing as postprocessing
 from atooms.postprocessing.helpers import linear_grid, logx_grid
 
 def main(fname):
-- 
2.43.0


From c84e58753a2ba16f67d50cea87ac423fd455c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 48/83] fix: F(k,t) is wrong in dimensions other than two and
 three

---
 atooms/postprocessing/fkt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index c49a5e6..d1109aa 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -306,10 +306,10 @@ class IntermediateScattering(IntermediateScatteringBase):
                                                     expo_0[..., 1, kvec[1]])
                     else:
                         # Arbitrary dimension (a bit slower)
-                        tmp = expo_0[..., 0, kvec[0]]
+                        tmp = expo_0[..., 0, kvec[0]].copy()
                         for idim in range(1, len(kvec)):
                             tmp *= expo_0[..., idim, kvec[idim]]
-                        rho_0[it][kvec] += numpy.sum(tmp).real
+                        rho_0[it][kvec] = numpy.sum(tmp)
 
                     # Same optimization as above: only calculate rho_1 if needed
                     if self._pos_1 is not self._pos_0:
@@ -322,10 +322,10 @@ class IntermediateScattering(IntermediateScatteringBase):
                                                         expo_1[..., 1, kvec[1]])
                         else:
                             # Arbitrary dimension (a bit slower)
-                            tmp = expo_1[..., 0, kvec[0]]
+                            tmp = expo_1[..., 0, kvec[0]].copy()
                             for idim in range(1, len(kvec)):
                                 tmp *= expo_1[..., idim, kvec[idim]]
-                            rho_1[it][kvec] += numpy.sum(tmp).real
+                            rho_1[it][kvec] = numpy.sum(tmp)
 
             # Optimization
             if self._pos_1 is self._pos_0:
-- 
2.43.0


From 93285222838d29d4cd4a2a065b59a3e7df7f1611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 49/83] fix: partial S(k) is wrong in dimensions other than two
 and three

---
 atooms/postprocessing/sk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index 7ed9111..27feee5 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -131,11 +131,11 @@ class StructureFactorLegacy(FourierSpaceCorrelation):
                                               expo_1[..., 1, kvec[1]])
                         else:
                             tmp = weight_0 * expo_0[..., 0, kvec[0]]
-                            for idim in range(ndims):
+                            for idim in range(1, ndims):
                                 tmp *= expo_0[..., idim, kvec[idim]]
                             rho_0 = numpy.sum(tmp)
-                            tmp = weight_0 * expo_1[..., 0, kvec[0]]
-                            for idim in range(ndims):
+                            tmp = weight_1 * expo_1[..., 0, kvec[0]]
+                            for idim in range(1, ndims):
                                 tmp *= expo_1[..., idim, kvec[idim]]
                             rho_1 = numpy.sum(tmp)
 
-- 
2.43.0


From 1ab4fe4d27dbf579be655188c7efdb76ff7d2e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 50/83] fix: collective overlap misses the pairs of particles
 across the cell borders

---
 atooms/postprocessing/qt.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/qt.py b/atooms/postprocessing/qt.py
index addd2e0..af04839 100644
--- a/atooms/postprocessing/qt.py
+++ b/atooms/postprocessing/qt.py
@@ -26,8 +26,17 @@ def square_displacement(x, y):
     """Return array of square distances (no pbc)."""
     return numpy.sum((x-y)**2, axis=1)
 
-def collective_overlap(r0, r1, a_square):
-    rij = pairs_numpy(square_displacement, r0, r1)
+def collective_overlap(r0, r1, a_square, side=None):
+    """
+    Number of pairs closer than a, given its square `a_square`. If
+    `side` is given, periodic boundary conditions are applied.
+    """
+    def square_distance(x, y):
+        r = x - y
+        r = r - numpy.rint(r / side) * side
+        return numpy.sum(r**2, axis=1)
+
+    rij = pairs_numpy(square_displacement if side is None else square_distance, r0, r1)
     return (rij.flatten() < a_square).sum()
 
 def self_overlap(r0, r1, a_square):
@@ -53,8 +62,14 @@ class CollectiveOverlap(Correlation):
         self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
 
     def _compute(self):
+        # The positions are folded: we need the nearest images of the particles
+        side = None
+        cell = self.trajectory[0].cell
+        if cell is not None:
+            side = numpy.where(cell.periodic, cell.side, numpy.finfo(float).max)
+
         def f(x, y):
-            return collective_overlap(x, y, self.a_square).sum() / float(x.shape[0])
+            return collective_overlap(x, y, self.a_square, side).sum() / float(x.shape[0])
         self.grid, self.value = gcf_offset(f, self._discrete_tgrid,
                                            self.skip, self.trajectory.steps, self._pos)
         self.grid = [ti * self.trajectory.timestep for ti in self.grid]
-- 
2.43.0


From 19a54fbb6c263c83cb128bed40fa5ef2cf209c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 51/83] fix: api.chi4qs() writes nothing for one-component
 systems and ignores no_partial

---
 atooms/postprocessing/api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 27c667d..4a6b19e 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -268,10 +268,10 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        if total:
-            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
-        if not total and len(ids) > 1:
+        if total or len(ids) == 1 or global_args['no_partial']:
+            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
+        if not total and len(ids) > 1 and not global_args['no_partial']:
             Partial(backend, ids, th, t_grid, a=a,
                     norigins=global_args['norigins']).do(update=global_args['update'])
 
-- 
2.43.0


From f3aab247f317617558e77136a096b3125e5742bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 52/83] fix: api.fkt() and api.fskt() write nothing when
 partial correlations are disabled

---
 atooms/postprocessing/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 4a6b19e..cdab9c3 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -209,7 +209,7 @@ def fkt(input_file, tmax=-1.0, tmax_fraction=0.75,
         else:
             k_grid = linear_grid(kmin, kmax, ksamples)
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
+        if total or len(ids) == 1 or global_args['no_partial']:
             pp.IntermediateScattering(th, k_grid, t_grid,
                                       norigins=global_args['norigins'],
                                       nk=nk, dk=dk, fix_cm=fix_cm).do(update=global_args['update'])
@@ -241,7 +241,7 @@ def fskt(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=60,
         else:
             k_grid = linear_grid(kmin, kmax, ksamples)
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
+        if total or len(ids) == 1 or global_args['no_partial']:
             backend(th, k_grid, t_grid, nk, dk=dk,
                     norigins=global_args['norigins'], fix_cm=fix_cm,
                     lookup_mb=lookup_mb).do(update=global_args['update'])
-- 
2.43.0


From 84eda12c4f3fe45a46d46da7de775e57bc1701de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 53/83] fix: the filter option is silently ignored by
 time-dependent correlations

---
 atooms/postprocessing/api.py | 54 ++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index cdab9c3..4536431 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -158,10 +158,13 @@ def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         else:
             t_grid = None
         ids = distinct_species(th[0].particle)
-        pp.MeanSquareDisplacement(th, tgrid=t_grid,
-                                  norigins=global_args['norigins'],
-                                  sigma=sigma, rmax=rmsd_max, no_offset=no_offset,
-                                  fix_cm=fix_cm).do(update=global_args['update'])
+        cf = pp.MeanSquareDisplacement(th, tgrid=t_grid,
+                                       norigins=global_args['norigins'],
+                                       sigma=sigma, rmax=rmsd_max, no_offset=no_offset,
+                                       fix_cm=fix_cm)
+        if global_args['filter'] is not None:
+            cf = pp.Filter(cf, global_args['filter'])
+        cf.do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.MeanSquareDisplacement, ids, th, tgrid=t_grid,
                     norigins=global_args['norigins'], sigma=sigma,
@@ -180,7 +183,10 @@ def vacf(input_file, tmax=-1.0, tmax_fraction=0.10,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.VelocityAutocorrelation(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.VelocityAutocorrelation(th, t_grid, norigins=global_args['norigins'])
+        if global_args['filter'] is not None:
+            cf = pp.Filter(cf, global_args['filter'])
+        cf.do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.VelocityAutocorrelation, ids, th,
@@ -210,9 +216,12 @@ def fkt(input_file, tmax=-1.0, tmax_fraction=0.75,
             k_grid = linear_grid(kmin, kmax, ksamples)
         ids = distinct_species(th[0].particle)
         if total or len(ids) == 1 or global_args['no_partial']:
-            pp.IntermediateScattering(th, k_grid, t_grid,
-                                      norigins=global_args['norigins'],
-                                      nk=nk, dk=dk, fix_cm=fix_cm).do(update=global_args['update'])
+            cf = pp.IntermediateScattering(th, k_grid, t_grid,
+                                           norigins=global_args['norigins'],
+                                           nk=nk, dk=dk, fix_cm=fix_cm)
+            if global_args['filter'] is not None:
+                cf = pp.Filter(cf, global_args['filter'])
+            cf.do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.IntermediateScattering, ids, th, k_grid, t_grid,
                     norigins=global_args['norigins'],
@@ -242,9 +251,12 @@ def fskt(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=60,
             k_grid = linear_grid(kmin, kmax, ksamples)
         ids = distinct_species(th[0].particle)
         if total or len(ids) == 1 or global_args['no_partial']:
-            backend(th, k_grid, t_grid, nk, dk=dk,
-                    norigins=global_args['norigins'], fix_cm=fix_cm,
-                    lookup_mb=lookup_mb).do(update=global_args['update'])
+            cf = backend(th, k_grid, t_grid, nk, dk=dk,
+                         norigins=global_args['norigins'], fix_cm=fix_cm,
+                         lookup_mb=lookup_mb)
+            if global_args['filter'] is not None:
+                cf = pp.Filter(cf, global_args['filter'])
+            cf.do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(backend, ids, th, k_grid, t_grid, nk, dk=dk,
                     norigins=global_args['norigins'], fix_cm=fix_cm,
@@ -270,7 +282,10 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
             t_grid = None
         ids = distinct_species(th[0].particle)
         if total or len(ids) == 1 or global_args['no_partial']:
-            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
+            cf = backend(th, t_grid, a=a, norigins=global_args['norigins'])
+            if global_args['filter'] is not None:
+                cf = pp.Filter(cf, global_args['filter'])
+            cf.do(update=global_args['update'])
         if not total and len(ids) > 1 and not global_args['no_partial']:
             Partial(backend, ids, th, t_grid, a=a,
                     norigins=global_args['norigins']).do(update=global_args['update'])
@@ -287,7 +302,10 @@ def alpha2(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.NonGaussianParameter(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.NonGaussianParameter(th, t_grid, norigins=global_args['norigins'])
+        if global_args['filter'] is not None:
+            cf = pp.Filter(cf, global_args['filter'])
+        cf.do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.NonGaussianParameter, ids, th, t_grid,
@@ -305,7 +323,10 @@ def qst(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.SelfOverlap(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.SelfOverlap(th, t_grid, norigins=global_args['norigins'])
+        if global_args['filter'] is not None:
+            cf = pp.Filter(cf, global_args['filter'])
+        cf.do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.SelfOverlap, ids, th, t_grid,
@@ -323,7 +344,10 @@ def qt(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.CollectiveOverlap(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.CollectiveOverlap(th, t_grid, norigins=global_args['norigins'])
+        if global_args['filter'] is not None:
+            cf = pp.Filter(cf, global_args['filter'])
+        cf.do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.CollectiveOverlap, ids, th, t_grid,
-- 
2.43.0


From 802675d2988ef811f7aeb788f93048fd115c20a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 54/83] fix: output files cannot be written in the current
 folder

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index af890c7..98d1971 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -665,7 +665,7 @@ class Correlation(object):
         import os
         from atooms.core.utils import mkdir
         if self._output_file is not None:
-            mkdir(os.path.dirname(self._output_file))
+            mkdir(os.path.dirname(os.path.abspath(self._output_file)))
             with open(self._output_file, 'w') as fh:
                 fh.write(comments)
                 if len(analysis) > 0:
-- 
2.43.0


From 3477c1c7c3be65d211d99251401e4ed9ccbe41c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 55/83] fix: cached frames are centered again every time they
 are read

---
 atooms/postprocessing/api.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 4536431..f6eb6b5 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -14,13 +14,19 @@ _func_db = {'linear_grid': linear_grid,
             'logx_grid': logx_grid,
             'logx': logx_grid}
 
+def _center(system):
+    """Center the system in the cell, leaving the input system as is"""
+    # The center() callback works in place, but the frames may be cached
+    import copy
+    return center(copy.deepcopy(system))
+
 def _get_trajectories(input_files, args):
     from atooms.trajectory import Sliced
     from atooms.core.utils import fractional_slice
     for input_file in input_files:
         with Trajectory(input_file, fmt=args['fmt']) as th:
             if args['center']:
-                th.add_callback(center)
+                th.add_callback(_center)
             # Caching is useful for systems with multiple species but
             # it will increase the memory footprint. Use --no-cache to
             # disable it
-- 
2.43.0


From de0cd81009804bc06c36b3b1b0eea612da8f609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 56/83] fix: fast g(r) up to rmax raises an error in dimensions
 other than two and three

---
 atooms/postprocessing/gr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 19e490c..e63f6ab 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -244,7 +244,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             n_1 = len(self._pos_1[0])
             rho = n_1 / system.cell.volume
             nmax = self.rmax**ndims * rho
-            if int(min(system.cell.side / self.rmax)) > 3 and nmax * n_0 < 1e6:
+            if ndims in [2, 3] and int(min(system.cell.side / self.rmax)) > 3 and nmax * n_0 < 1e6:
                 linkedcells = LinkedCells(rcut=self.rmax)
             else:
                 linkedcells = None
-- 
2.43.0


From d23d5a7247d85c815752a39f415c2ee835bbe3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 57/83] fix: g(r) computed with linked cells misses pairs in
 the last bin

---
 atooms/postprocessing/gr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index e63f6ab..722405c 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -243,9 +243,11 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             n_0 = len(self._pos_0[0])
             n_1 = len(self._pos_1[0])
             rho = n_1 / system.cell.volume
-            nmax = self.rmax**ndims * rho
-            if ndims in [2, 3] and int(min(system.cell.side / self.rmax)) > 3 and nmax * n_0 < 1e6:
-                linkedcells = LinkedCells(rcut=self.rmax)
+            # The last bin may extend up to dr/2 beyond rmax
+            rcut = self.rmax + dr / 2
+            nmax = rcut**ndims * rho
+            if ndims in [2, 3] and int(min(system.cell.side / rcut)) > 3 and nmax * n_0 < 1e6:
+                linkedcells = LinkedCells(rcut=rcut)
             else:
                 linkedcells = None
 
-- 
2.43.0


From 8c5b749bdd445ad54317c661d99781bda19351e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 58/83] fix: g(r) in non-periodic cells is wrong by a factor
 two if there are no particles in the bulk of the last frame

---
 atooms/postprocessing/gr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 722405c..088a7f3 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -284,10 +284,10 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
                 mask = compute.on_surface_c(pos_0, system.cell.side, self.rmax)
                 pos_0 = pos_0[mask == 0, :]
                 common = common[mask == 0]
-                if len(pos_0) == 0:
-                    continue
                 # Force distinct calculation. This gives a spurious signal at r=0, which we remove
                 distinct = True
+                if len(pos_0) == 0:
+                    continue
 
             # When using linked cells, we precalculate the neighbors
             # This will only happen if the system is within a cell (and all directions are periodic)
-- 
2.43.0


From 7795244faa9c8e9db9da28ab62c95612c53d89e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 59/83] fix: the null vector is included among the wave-vectors
 of large cells

---
 atooms/postprocessing/fourierspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 584a0c5..7a94f4e 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -279,7 +279,8 @@ class FourierSpaceCorrelation(Correlation):
         # Fill kvec array with kvectors matching the input kgrid within dk
         for ik in _iterator(kbin_max):
             ksq = numpy.dot(k0*ik, k0*ik)
-            if ksq > kmax_sq:
+            # The null vector does not carry any information on fluctuations
+            if ksq > kmax_sq or not numpy.any(ik):
                 continue
             # beware: numpy.sqrt is x5 slower than math one!
             knorm = math.sqrt(ksq)
-- 
2.43.0


From 155044533f0649078cec19a544a0dc09c5b2aa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 60/83] fix: wave-vector shells of fluctuating cells are
 centered on the norms found in the first frame

---
 atooms/postprocessing/fourierspace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 7a94f4e..b7627d4 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -177,6 +177,7 @@ class FourierSpaceCorrelation(Correlation):
         self.ksamples = ksamples
         self.kgrid = None
         self._kgrid = None
+        self._has_kgrid = False
         self._sample = 0
         self.k0 = []
         self._kvectors = []
@@ -200,7 +201,8 @@ class FourierSpaceCorrelation(Correlation):
         # Find k-norms grid and store it a self.kgrid (the norms are sorted)
         # The requested grid is kept apart, because kgrid is redefined below
         # and must not share memory with the input grid
-        if self._kgrid is None:
+        if not self._has_kgrid:
+            self._has_kgrid = True
             variables = self.short_name.split('(')[1][:-1]
             variables = variables.split(',')
             if self.kgrid is not None:
-- 
2.43.0


From 2dd95dfa2d8da02b0d126b99700f2b746fdd0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 61/83] fix: filtering a weighted correlation drops the weight
 from its output path

---
 atooms/postprocessing/filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/filter.py b/atooms/postprocessing/filter.py
index b9ed07b..41a91a2 100644
--- a/atooms/postprocessing/filter.py
+++ b/atooms/postprocessing/filter.py
@@ -41,8 +41,9 @@ def Filter(correlation, condition):
     tag = tag.replace('==', '')
     tag = tag.replace('!=', '.not')
     tag = tag.replace(',', '-')
-    correlation.tag = tag
-    correlation.tag_description = condition
+    # The correlation may already have a weight, see `add_weight()`
+    correlation.tag = tag + correlation.tag
+    correlation.tag_description = correlation.tag_description.replace('the whole system', condition)
 
     if correlation.nbodies == 1:
         correlation.add_filter(_filter_generic, condition)
-- 
2.43.0


From c7a9c62c8884b5fb589aa5c41bd8ca5f49f39014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 62/83] fix: chi4 writes the moments of the overlap ignoring
 output path and description

---
 atooms/postprocessing/chi4t.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 474a824..e33bf2d 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -80,8 +80,13 @@ class Chi4SelfOverlap(Correlation):
     def write(self):
         # We subclass this to also write down qsu and qsu2
         super(Chi4SelfOverlap, self).write()
-        self.average.write()
-        self.variance.write()
+        for cf in [self.average, self.variance]:
+            cf.tag_description = self.tag_description
+            default, cf.output_path = cf.output_path, self.output_path
+            # Do not overwrite the file of chi4 itself
+            if self.output_path is not None and cf._output_file == self._output_file:
+                cf.output_path = default
+            cf.write()
 
     def analyze(self):
         try:
-- 
2.43.0


From 41d8de67cf74eb5ce8c8803a2386acac3cac8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:04 +0000
Subject: [PATCH 63/83] fix: fluctuations of an integer weight field could not
 be computed

---
 atooms/postprocessing/correlation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 98d1971..a802a7e 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -105,8 +105,9 @@ def _subtract_mean(weight):
     for current_field in weight:
         mean += current_field.mean()
     mean /= len(weight)
-    for current_field in weight:
-        current_field -= mean
+    for i in range(len(weight)):
+        # The field may be an array of integers, do not subtract in place
+        weight[i] = weight[i] - mean
     return weight
 
 
-- 
2.43.0


From fa450d54d435d29a84a750d719c87ca866c92894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 64/83] fix: F_s(k,t) and F(k,t) with fixed center of mass are
 wrong for cached trajectories

---
 atooms/postprocessing/correlation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index a802a7e..fd145a9 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -111,6 +111,12 @@ def _subtract_mean(weight):
     return weight
 
 
+def _fold(system):
+    """Fold the system in the cell, leaving the input system as is"""
+    # The fold() callback works in place, but the frames may be cached
+    return fold(copy.deepcopy(system))
+
+
 def _is_iterable(maybe_iterable):
     try:
         iter(maybe_iterable)
@@ -360,7 +366,7 @@ class Correlation(object):
                 self._unfolded = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
                 # We must fold positions back in this case
                 if 'pos' in self.phasespace:
-                    self._unfolded.add_callback(fold)
+                    self._unfolded.add_callback(_fold)
             # Change the local shortcut to the unfolded trajectory
             th = self._unfolded
 
@@ -488,7 +494,7 @@ class Correlation(object):
             th = self.trajectory
             if 'pos' in self.phasespace and self._fix_cm:
                 th = Unfolded(self.trajectory, fixed_cm=True)
-                th.add_callback(fold)
+                th.add_callback(_fold)
             ids = distinct_species(self.trajectory[0].particle)
             for s in progress(th):
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
-- 
2.43.0


From 829545489c433ad61d43464e3d52679289b87403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 65/83] fix: linked cells yield duplicate pairs when the cell
 shrinks after the first frame

---
 atooms/postprocessing/gr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 088a7f3..bc54460 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -291,7 +291,9 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
 
             # When using linked cells, we precalculate the neighbors
             # This will only happen if the system is within a cell (and all directions are periodic)
-            if linkedcells:
+            # Fewer than 3 cells along a side, in case the cell shrinks, would yield duplicate neighbors
+            use_cells = linkedcells is not None and min(system.cell.side / rcut) >= 3
+            if use_cells:
                 if not distinct:
                     neighbors, number_of_neighbors = linkedcells.compute(system.cell.side, pos_0, as_array=True, periodic=system.cell.periodic)
                 else:
@@ -325,12 +327,12 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
 
             # Compute g(r)
             if not distinct:
-                if linkedcells is None:
+                if not use_cells:
                     compute.gr_self_c(pos_0, side, dr, gr, bins)
                 else:
                     compute.gr_neighbors_self_c('C', pos_0, neighbors, number_of_neighbors, side, dr, gr, bins)
             else:
-                if linkedcells is None:
+                if not use_cells:
                     compute.gr_distinct_c(pos_0, pos_1, side, dr, gr, bins)
                 else:
                     compute.gr_neighbors_distinct_c('C', pos_0, pos_1, neighbors, number_of_neighbors, side, dr, gr, bins)
-- 
2.43.0


From 767209efd370366e209b57f8b950be091227cfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 66/83] fix: linear fit fails when the data lie on a straight
 line

---
 atooms/postprocessing/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 39c1220..91ce0cd 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -89,6 +89,8 @@ def linear_fit(xdata, ydata):
     b = sy / n - a * sx / n
     if dof > 0:
         s = (n*syy - sy**2 - a**2 * (n*sxx - sx**2)) / (n*dof)
+        # Rounding may yield a tiny negative number when data lie on a line
+        s = max(0.0, s)
     else:
         s = 0.0
     sa = n * s / (n*sxx - sx**2)
-- 
2.43.0


From 99055034647081ea779d596b8f170ca5ca71140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 67/83] fix: susceptibility drops starting frames when the time
 grid is short

---
 atooms/postprocessing/susceptibility.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/susceptibility.py b/atooms/postprocessing/susceptibility.py
index 0ee2bb8..1b542cf 100644
--- a/atooms/postprocessing/susceptibility.py
+++ b/atooms/postprocessing/susceptibility.py
@@ -30,8 +30,12 @@ class Susceptibility(Correlation):
         y_all, x_all = [], []
         db = defaultdict(list)
         N = len(self.trajectory[0].particle)
-        frac = self._kwargs['tgrid'][-1] / self.trajectory.total_time
-        for i in range(0, int(len(self.trajectory.steps) * frac) - self.skip, self.skip):
+        # Start from the frames from which the largest time can be reached
+        steps = self.trajectory.steps
+        tmax = max(self._kwargs['tgrid']) * (1 - 1e-10)
+        origins = [i for i in range(0, len(steps), self.skip)
+                   if (steps[-1] - steps[i]) * self.trajectory.timestep >= tmax]
+        for i in origins or [0]:
             ths = Sliced(self.trajectory, slice(i, len(self.trajectory.steps), 1))
             corr = self._corr_cls(ths, *self._args, **self._kwargs)
             corr.compute()
-- 
2.43.0


From 1dfdf6772bd92b3905a1cd91cc0b85fe23603a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 68/83] fix: stress autocorrelation cannot be computed

Trajectories do not have samples anymore.
---
 atooms/postprocessing/sacf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/sacf.py b/atooms/postprocessing/sacf.py
index e26682e..e536f19 100644
--- a/atooms/postprocessing/sacf.py
+++ b/atooms/postprocessing/sacf.py
@@ -30,7 +30,7 @@ class StressAutocorrelation(Correlation):
         p = self.trajectory.read(0).particle
         mass = numpy.array([pi.mass for pi in p])
         self._stress = []
-        for i in self.trajectory.samples:
+        for i in range(len(self.trajectory)):
             s = self.trajectory.read(i).interaction.stress
             smk = numpy.zeros(ndims)
             m = 0
-- 
2.43.0


From eb33cc21c660b8b0f25d9b8bb10862501049268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 69/83] fix: stress autocorrelation ignores the requested time
 origins

---
 atooms/postprocessing/sacf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/sacf.py b/atooms/postprocessing/sacf.py
index e536f19..5027a9a 100644
--- a/atooms/postprocessing/sacf.py
+++ b/atooms/postprocessing/sacf.py
@@ -46,7 +46,7 @@ class StressAutocorrelation(Correlation):
 
         self._get_stress()
         V = self.trajectory.read(0).cell.volume
-        self.grid, self.value = gcf_offset(f, self._discrete_tgrid, self.trajectory.block_size,
+        self.grid, self.value = gcf_offset(f, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._stress)
         self.value = [x / V for x in self.value]
         self.grid = [ti * self.trajectory.timestep for ti in self.grid]
-- 
2.43.0


From 5a046eefcd91d499b67faca8f054cacdd34f521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 70/83] fix: stress autocorrelation is only available in 3d

---
 atooms/postprocessing/sacf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/sacf.py b/atooms/postprocessing/sacf.py
index 5027a9a..1810431 100644
--- a/atooms/postprocessing/sacf.py
+++ b/atooms/postprocessing/sacf.py
@@ -26,13 +26,13 @@ class StressAutocorrelation(Correlation):
         self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
 
     def _get_stress(self):
-        ndims = 3
         p = self.trajectory.read(0).particle
         mass = numpy.array([pi.mass for pi in p])
         self._stress = []
         for i in range(len(self.trajectory)):
             s = self.trajectory.read(i).interaction.stress
-            smk = numpy.zeros(ndims)
+            ndims = len(s)
+            smk = numpy.zeros(ndims * (ndims - 1) // 2)
             m = 0
             for j in range(ndims):
                 for k in range(j+1, ndims):
-- 
2.43.0


From 6f4c1568f09bf5779a0522f481b94b8db05dbf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 71/83] fix: g(r) of systems without a cell cannot be computed
 without rmax

---
 atooms/postprocessing/gr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index bc54460..74e9e33 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -382,9 +382,11 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         # Restrict distances to L/2 (in last frame) or rmax
         if self.rmax > 0:
             where = self.grid <= self.rmax
-        else:
+        elif system.cell is not None:
             side = system.cell.side
             where = self.grid <= min(side) / 2
+        else:
+            where = self.grid < numpy.inf
         self.grid = self.grid[where]
         self.value = self.value[where]
 
-- 
2.43.0


From b15086cac002ac094da44dc1c943162c84e13d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:54 +0000
Subject: [PATCH 72/83] fix: chi4 cannot be computed without a cell

The plain implementation reads the side of the cell, which it does not
use: the optimized one works.
---
 atooms/postprocessing/chi4t.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index e33bf2d..e7f10c8 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -54,7 +54,6 @@ class Chi4SelfOverlap(Correlation):
         def f(x, y):
             return self_overlap(x, y, self.a_square).sum()
 
-        side = self.trajectory.read(0).cell.side
         self.grid, self.value = [], []
         self.average.value, self.variance.value = [], []
         # At this stage, we can copy the tags
-- 
2.43.0


From 459c45a6508adf2840f7884acdd72c73da46888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 73/83] fix: linked cells miss neighbors when used for
 different searches

The map of neighboring cells was only updated when the box changed, not
when the kind of search (third law, two sets of particles, periodicity)
did.
---
 atooms/postprocessing/linkedcells.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 73b3396..722426a 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -139,9 +139,15 @@ class LinkedCells(object):
         return found
 
     def compute(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
-        # Adjust the cells once, unless the box has changed
-        if not self._is_adjusted or numpy.any(self.box != box):
-            self.adjust(box, newton=other is None and newton, periodic=periodic)
+        # Adjust the cells once, unless the box or the kind of search
+        # has changed. Once all the neighboring cells are mapped, they
+        # are used for the searches with newton=True too.
+        search = (other is None, None if periodic is None else tuple(periodic))
+        if not self._is_adjusted or numpy.any(self.box != box) or \
+           self._search != search or (self._half and not newton):
+            self._half = other is None and newton
+            self._search = search
+            self.adjust(box, newton=self._half, periodic=periodic)
             self._is_adjusted = True
         # We only need positions here but how can we be sure that
         # this is the same set of particles we use when retrieving
-- 
2.43.0


From 3aa1a21b723c3358e98ff576d534135dddbc18e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:50 +0000
Subject: [PATCH 74/83] fix: g(r) loses its last bin when computed again

With the default grid, which is None before the first calculation, the bins
were found from the output grid when computing the correlation again, which
drops the last one if rmax is the middle of a bin.
---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index fd145a9..6c73c9c 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -532,7 +532,7 @@ class Correlation(object):
         which are also returned.
         """
         # If the correlation is computed again, start from the input grid
-        if self._input_grid is not None and self.grid is self._output_grid:
+        if self._output_grid is not None and self.grid is self._output_grid:
             self.grid = self._input_grid
         self._input_grid = copy.copy(self.grid)
 
-- 
2.43.0


From fda04ae83736d2a716d6d0529a10134b73d1417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 75/83] fix: correlations read from file are computed on the
 wrong grid

The grid read back with the update option replaced the input one, so that
computing the correlation afterwards used slightly different wave-vectors.
---
 atooms/postprocessing/correlation.py  | 15 ++++++++++++---
 atooms/postprocessing/fourierspace.py |  1 +
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 6c73c9c..f4b13d5 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -523,6 +523,14 @@ class Correlation(object):
                 self._pos_unf_0.append(s0.dump('pos'))
                 self._pos_unf_1.append(s1.dump('pos'))
 
+    def _restore_grid(self):
+        """
+        Restore the input grid, in case the correlation has already been
+        computed or read from a file
+        """
+        if self._output_grid is not None and self.grid is self._output_grid:
+            self.grid = self._input_grid
+
     def compute(self):
         """
         Compute the correlation function.
@@ -531,9 +539,7 @@ class Correlation(object):
         This method sets the `self.grid` and `self.value` variables,
         which are also returned.
         """
-        # If the correlation is computed again, start from the input grid
-        if self._output_grid is not None and self.grid is self._output_grid:
-            self.grid = self._input_grid
+        self._restore_grid()
         self._input_grid = copy.copy(self.grid)
 
         _log.info('setup arrays for %s', self.tag_description)
@@ -595,6 +601,8 @@ class Correlation(object):
 
     def read(self):
         """Read correlation function from existing file"""
+        self._restore_grid()
+        self._input_grid = copy.copy(self.grid)
         with open(self._output_file, 'r') as inp:
             x = numpy.loadtxt(inp, unpack=True, ndmin=2)
             if len(x) == 3:
@@ -604,6 +612,7 @@ class Correlation(object):
             else:
                 self.grid, self.value = x[0: 2]
                 _log.warn("Ignoring some columns in %s", self._output_file)
+        self._output_grid = self.grid
 
     @property
     def grid_name(self):
diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index b7627d4..0d1063f 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -184,6 +184,7 @@ class FourierSpaceCorrelation(Correlation):
         self._koffset = 0
 
     def compute(self):
+        self._restore_grid()
         # Setup grid once. If cell changes we'll call it again
         self._setup()
         # Now compute
-- 
2.43.0


From 834c04d34f6e642c886143235f441a84e37fe45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 76/83] fix: output files of species with punctuation overwrite
 each other

With species A and A-, as in ionic systems, the pairs A-A, A-A- and A--A-
were all written to the same file, because the punctuation of the tag was
stripped as well.
---
 atooms/postprocessing/correlation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index f4b13d5..859ea6a 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -297,7 +297,7 @@ class Correlation(object):
         self.tag_description += ' with {} {} field'.format(self._weight_field.replace('_', ' '), fluct)
         self.tag_description = self.tag_description.replace('  ', ' ')
         self.tag += '.{}_{}'.format(self._weight_field, fluct)
-        self.tag.strip('_.')
+        self.tag = self.tag.rstrip('_')
 
     def add_filter(self, cbk, *args, **kwargs):
         """Add filter callback `cbk` along with positional and keyword arguments"""
@@ -585,10 +585,13 @@ class Correlation(object):
         if self.output_path is None:
             filename = None
         else:
+            # The punctuation of species and fields in the tag must be
+            # kept, or their output files may end up being the same
+            tag = self.tag.lstrip('.')
             filename = self.output_path.format(symbol=self.symbol,
                                                short_name=self.short_name,
                                                long_name=self.long_name.replace(' ', '_'),
-                                               tag=self.tag,
+                                               tag='\0' if tag else '',
                                                tag_description=self.tag_description.replace(' ', '_'),
                                                trajectory=self.trajectory)
             # Strip unpleasant punctuation from basename path
@@ -597,6 +600,7 @@ class Correlation(object):
                 subpaths[-1] = subpaths[-1].replace(punct * 2, punct)
                 subpaths[-1] = subpaths[-1].strip(punct)
                 filename = '/'.join(subpaths)
+            filename = filename.replace('\0', tag)
         return filename
 
     def read(self):
-- 
2.43.0


From e0176111e5202dd5890a9eaa7bdcac3004622a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:17 +0000
Subject: [PATCH 77/83] fix: unfolded positions cannot be read along with other
 data

---
 atooms/postprocessing/correlation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 859ea6a..0b53d13 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -367,8 +367,10 @@ class Correlation(object):
                 # We must fold positions back in this case
                 if 'pos' in self.phasespace:
                     self._unfolded.add_callback(_fold)
-            # Change the local shortcut to the unfolded trajectory
-            th = self._unfolded
+            # Change the local shortcut to the unfolded trajectory,
+            # unless we need the positions of the trajectory as they are
+            if self._fix_cm or 'pos' not in self.phasespace:
+                th = self._unfolded
 
         # Read everything except unfolded trajectories
         if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:
@@ -388,6 +390,11 @@ class Correlation(object):
 
         # Read unfolded positions if requested
         if 'pos-unf' in self.phasespace:
+            # The unfolded trajectory above cannot be read twice, and
+            # its positions may be folded back: start over
+            th = self.trajectory
+            if not hasattr(th[0].particle[0], 'position_unfolded'):
+                th = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
             if hasattr(th[0].particle[0], 'position_unfolded'):
                 # Unfolded positions are present in the trajectory
                 for s in progress(th):
-- 
2.43.0


From 6ef64b17ef9dd109ac8b1de2f6aa5d789b48811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:17 +0000
Subject: [PATCH 78/83] fix: two-body correlations miss unfolded positions
 without filters and in the trajectory

---
 atooms/postprocessing/correlation.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 0b53d13..65ac4c4 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -494,6 +494,8 @@ class Correlation(object):
             self._vel_1 = self._vel
             self._ids_0 = self._ids
             self._ids_1 = self._ids
+            self._pos_unf_0 = self._pos_unf
+            self._pos_unf_1 = self._pos_unf
             return
 
         if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:
@@ -524,11 +526,21 @@ class Correlation(object):
 
         # Dump unfolded positions if requested
         if 'pos-unf' in self.phasespace:
-            for s in progress(Unfolded(self.trajectory, fixed_cm=self._fix_cm)):
+            # Use the unfolded positions of the trajectory, if any
+            stored = hasattr(self.trajectory[0].particle[0], 'position_unfolded')
+            th = self.trajectory if stored else Unfolded(self.trajectory, fixed_cm=self._fix_cm)
+            what = 'particle.position_unfolded' if stored else 'pos'
+            for s in progress(th):
+                if stored and self._fix_cm:
+                    # Do not modify the particles of the trajectory
+                    s = copy.deepcopy(s)
+                    cm = s.cm('position_unfolded')
+                    for p in s.particle:
+                        p.position_unfolded -= cm
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                 s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
-                self._pos_unf_0.append(s0.dump('pos'))
-                self._pos_unf_1.append(s1.dump('pos'))
+                self._pos_unf_0.append(s0.dump(what))
+                self._pos_unf_1.append(s1.dump(what))
 
     def _restore_grid(self):
         """
-- 
2.43.0


From 1b8740bddec496e1f8e042b7fde1f6861a176882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:32 +0000
Subject: [PATCH 79/83] fix: the selection of wave-vectors never ends for
 closely spaced k-grids

---
 atooms/postprocessing/fourierspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 0d1063f..93e1d81 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -266,7 +266,8 @@ class FourierSpaceCorrelation(Correlation):
         # With elongated box, we choose the smallest k0 component to
         # setup the integer grid. This must be consistent with
         # expo_grid() otherwise it wont find the vectors
-        kmax = kgrid[-1] + dk[-1]
+        # Shells may have been widened, see below
+        kmax = max(k + d for k, d in zip(kgrid, dk))
         kbin_max = 1 + int(kmax / min(k0))
         kmax_sq = kmax**2
 
-- 
2.43.0


From 60ef9bc6662fd57d6de9b7cf09c66b40f994e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:26 +0000
Subject: [PATCH 80/83] fix: computing again after an interruption starts from
 a modified grid

---
 atooms/postprocessing/correlation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 65ac4c4..f018337 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -560,7 +560,14 @@ class Correlation(object):
         """
         self._restore_grid()
         self._input_grid = copy.copy(self.grid)
+        try:
+            return self._compute_from_grid()
+        except BaseException:
+            # Start over from the input grid, if we compute again
+            self.grid = self._input_grid
+            raise
 
+    def _compute_from_grid(self):
         _log.info('setup arrays for %s', self.tag_description)
         t = [Timer(), Timer()]
         t[0].start()
-- 
2.43.0


From e25ca8a431878a9f9870b80f3ff5e28768067e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:26 +0000
Subject: [PATCH 81/83] fix: an interrupted setup leaves incomplete
 wave-vectors behind

---
 atooms/postprocessing/fourierspace.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 93e1d81..1db6b52 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -196,6 +196,8 @@ class FourierSpaceCorrelation(Correlation):
         # This allows to copy over the kvectors and kgrid
         if sample == 0 and self._sample == 0 and len(self._kvectors) > 0:
             return
+        # The wave-vectors are set once they are complete, see below
+        self._kvectors = []
         self._sample = sample
 
         # We subclass compute to define k grid at compute time
@@ -203,7 +205,6 @@ class FourierSpaceCorrelation(Correlation):
         # The requested grid is kept apart, because kgrid is redefined below
         # and must not share memory with the input grid
         if not self._has_kgrid:
-            self._has_kgrid = True
             variables = self.short_name.split('(')[1][:-1]
             variables = variables.split(',')
             if self.kgrid is not None:
@@ -212,6 +213,7 @@ class FourierSpaceCorrelation(Correlation):
                 self._kgrid = self.grid[variables.index('k')]
             else:
                 self._kgrid = self.grid
+            self._has_kgrid = True
         self.kgrid = list(self._kgrid) if self._kgrid is not None else None
 
         # Smallest kvector
@@ -232,8 +234,8 @@ class FourierSpaceCorrelation(Correlation):
                 self.kgrid[0] = min(self.k0)
 
         # Setup the grid of wave-vectors
-        self._kvectors, self._koffset = self._setup_grid_sphere(len(self.kgrid) * [self.dk],
-                                                                self.kgrid, self.k0)
+        kvectors, self._koffset = self._setup_grid_sphere(len(self.kgrid) * [self.dk],
+                                                          self.kgrid, self.k0)
 
         # Decimate
         # Setting the seed here once so as to get the same set
@@ -242,14 +244,15 @@ class FourierSpaceCorrelation(Correlation):
         # Pick up a random, unique set of nk vectors out ot the avilable ones
         # without exceeding maximum number of vectors in shell nkmax
         # self.kgrid, self.selection = self._decimate_k()
-        for i, klist in enumerate(self._kvectors):
+        for i, klist in enumerate(kvectors):
             nk = min(self.nk, len(klist))
-            self._kvectors[i] = random.sample(klist, nk)
+            kvectors[i] = random.sample(klist, nk)
 
         # Define the grid using the actual kvectors
         # average k norms appear after decimation.
-        for i, klist in enumerate(self._kvectors):
+        for i, klist in enumerate(kvectors):
             self.kgrid[i] = numpy.mean([_k_norm(kvec, self.k0, self._koffset) for kvec in klist])
+        self._kvectors = kvectors
 
     @staticmethod
     def _setup_grid_sphere(dk, kgrid, k0):
-- 
2.43.0


From 392bba90e87f782fa67d775089a189be24ce42e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:27 +0000
Subject: [PATCH 82/83] fix: refused weights are kept, along with a callback of
 the trajectory

---
 atooms/postprocessing/correlation.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index f018337..e181c49 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -269,15 +269,18 @@ class Correlation(object):
         if trajectory is None and field is None:
             return
 
-        self._weight = []
-        self._weight_fluctuations = fluctuations
-
         # Guessing the field from the last column of an xyz file is
         # not supported anymore
         if field is None:
             raise ValueError('provide field to use as weight')
-        else:
-            self._weight_field = field
+
+        # Make sure the steps are consistent, before changing anything
+        if trajectory is not None and trajectory.steps != self.trajectory.steps:
+            raise ValueError('inconsistency between weight trajectory and trajectory')
+
+        self._weight = []
+        self._weight_fluctuations = fluctuations
+        self._weight_field = field
 
         # By default we use the same trajectory as for the phasespace
         if trajectory is None:
@@ -288,10 +291,6 @@ class Correlation(object):
             from .helpers import copy_field
             self.trajectory.add_callback(copy_field, self._weight_field, self._weight_trajectory)
 
-        # Make sure the steps are consistent
-        if self._weight_trajectory.steps != self.trajectory.steps:
-            raise ValueError('inconsistency between weight trajectory and trajectory')
-
         # Modify tag
         fluct = 'fluctuations' if self._weight_fluctuations else ''
         self.tag_description += ' with {} {} field'.format(self._weight_field.replace('_', ' '), fluct)
-- 
2.43.0


From d7e519029cd449a38212bf567c83ff63e7873a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:27 +0000
Subject: [PATCH 83/83] fix: refused conditions change the tag and leave
 filters behind

---
 atooms/postprocessing/filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/filter.py b/atooms/postprocessing/filter.py
index 41a91a2..4969a09 100644
--- a/atooms/postprocessing/filter.py
+++ b/atooms/postprocessing/filter.py
@@ -33,6 +33,12 @@ def Filter(correlation, condition):
                 s.particle.append(particle)
         return s
 
+    # Refuse the condition before changing anything
+    if correlation.nbodies == 2 and condition.count(',') > 1:
+        raise ValueError('too many conditions for a 2 body-correlation function')
+    if len(correlation._cbk) > 0:
+        raise ValueError('the correlation function is already filtered')
+
     tag = condition.replace(' ', '')
     tag = tag.replace('and', '_')
     tag = tag.replace('or', '+')
@@ -63,7 +69,5 @@ def Filter(correlation, condition):
             # accordingly
             correlation.add_filter(_filter_generic, conditions[0])
             correlation.add_filter(_filter_generic, conditions[1])
-        else:
-            raise ValueError('too many conditions for a 2 body-correlation function')
 
     return correlation
-- 
2.43.0

