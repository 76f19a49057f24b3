From 4c4ff8ce367862c518512345a4783c75c1248b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:02 +0000
Subject: [PATCH 01/65] fix: refuse to check out a region whose active or fixed
 sources belong to another outstanding region

---
 forcepho/superscene.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index ccab493..b3f6448 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -255,7 +255,7 @@ class SuperScene:
         center = self.sky_to_scene(cra, cdec)
         radius, active_inds, fixed_inds = self.get_circular_scene(center)
         # Deal with case that region is invalid
-        if radius is None:
+        if (radius is None) or not self._available(active_inds, fixed_inds):
             return center, None, None
         region = CircularRegion(cra, cdec, radius / 3600.)
         self.sourcecat["is_active"][active_inds] = True
@@ -266,6 +266,13 @@ class SuperScene:
 
         return region, self.sourcecat[active_inds], self.sourcecat[fixed_inds]
 
+    def _available(self, active_inds, fixed_inds):
+        """Whether none of the given sources belongs to a region that is
+        already checked out.
+        """
+        inds = np.concatenate([active_inds, fixed_inds]).astype(int)
+        return bool(np.all(self.sourcecat["is_valid"][inds]))
+
     def checkin_region(self, active, fixed=None, niter=1, block_covs=None,
                        new_bounds=None, taskID=None, flush=False):
         """Check-in a set of active source parameters, and also fixed sources.
@@ -659,7 +666,8 @@ class LinkedSuperScene(SuperScene):
             seed_index = np.random.choice(self.n_sources, p=self.seed_weight())
 
         region, active_inds, fixed_inds = self.grow_scene(seed_index, max_fixed)
-        if active_inds is None:
+        # Deal with case that region is invalid
+        if (active_inds is None) or not self._available(active_inds, fixed_inds):
             return (region, seed_index), None, None
         if len(fixed_inds) == 0:
             fixed = None
-- 
2.43.0


From 2c292db91e39d5a5f64841ab5a3e0e7572bdcff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 02/65] fix: draw seeds only from available sources, with
 finite weights at any iteration count

---
 forcepho/superscene.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index b3f6448..0987ad7 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -475,18 +475,26 @@ class SuperScene:
         return self.exp_weight()
 
     def exp_weight(self):
-        # just one for inactive, zero if active
-        w = (~self.sourcecat["is_valid"]).astype(np.float64)
+        # just one for valid, zero if not valid
+        valid = self.sourcecat["is_valid"] > 0
+        if not np.any(valid):
+            # nothing is available, whatever gets drawn can not be checked out
+            valid = np.ones(self.n_sources, dtype=bool)
+        w = valid.astype(np.float64)
         # multiply by exponential
         n = np.abs(self.sourcecat["n_iter"])
         #mu = min(n.min(), self.target_niter)
         sigma = 20
-        w *= np.exp((n.mean() - n) / sigma)
+        w *= np.exp(-np.maximum(n - n[valid].min(), 0) / sigma)
         return w / w.sum()
 
     def sigmoid_weight(self):
         # just one for inactive, zero if active
-        w = (~self.sourcecat["is_active"]).astype(np.float32)
+        inactive = self.sourcecat["is_active"] == 0
+        if not np.any(inactive):
+            # nothing is available, whatever gets drawn can not be checked out
+            inactive = np.ones(self.n_sources, dtype=bool)
+        w = inactive.astype(np.float64)
 
         # multiply by something inversely correlated with niter
         # sigmoid ?  This is ~ 0.5 at niter ~ntarget
@@ -494,7 +502,8 @@ class SuperScene:
         # `b` shifts the 0.5 weight left (negative) and right of ntarget
         a, b = 20., -1.0
         x = a * (1 - self.sourcecat["n_iter"] / self.target_niter) + b
-        w *= 1 / (1 + np.exp(-x))
+        lnw = -np.logaddexp(0, -x)
+        w *= np.exp(np.minimum(lnw - lnw[inactive].max(), 0))
 
         return w / w.sum()
 
-- 
2.43.0


From 91b77d0a50e156923e07a9e59053fc27193b25a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:54 +0000
Subject: [PATCH 03/65] fix: make the dispatcher importable and its queue
 usable without running it as a script (config import, logger)

---
 forcepho/dispatcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 2c7a088..142cac7 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -18,13 +18,15 @@ import numpy as np
 from astropy.io import fits
 
 from .superscene import SuperScene, LinkedSuperScene, rectify_catalog
-from .utils import read_config
+from .config import read_config
 #from .child import sampling_task, optimization_task
 
 
 __all__ = ["MPIQueue",
            "do_child", "do_parent"]
 
+logger = logging.getLogger('dispatcher')
+
 
 class MPIQueue:
     """Simple implementation of an MPI queue.  Work can be submitted to the queue
-- 
2.43.0


From dd9e9db3745e6f98e2c2dc7fd44bb4c68dbb3ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:54 +0000
Subject: [PATCH 04/65] fix: log each checked-in patch under its own task id

---
 forcepho/dispatcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 142cac7..9b7f5d3 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -229,7 +229,7 @@ def do_parent(comm, config=None):
                 sceneDB.checkin_region(result['final'], result['out'].fixed,
                                        config.sampling_draws,
                                        block_covs=result['covs'],
-                                       taskID=taskid)
+                                       taskID=result['taskid'])
 
         # Receive any stragglers
         results = queue.collect(blocking='all')
@@ -293,7 +293,7 @@ def do_child(comm, config=None):
         # --- write to disk? ---
 
         # --- blocking send to parent, free GPU memory ---
-        answer = dict(out=out, covs=covs, final=final)
+        answer = dict(out=out, covs=covs, final=final, taskid=status.tag)
         comm.send(answer, parent, status.tag)
         logger.info(f"Child {rank} sent answer for task id {status.tag}")
 
-- 
2.43.0


From 1f58fe233ef65ab6a057ad05b3c2a64830c886e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:54 +0000
Subject: [PATCH 05/65] fix: check in the patches that finish after the last
 one was dispatched

---
 forcepho/dispatcher.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 9b7f5d3..108d7f5 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -234,10 +234,11 @@ def do_parent(comm, config=None):
         # Receive any stragglers
         results = queue.collect(blocking='all')
         logger.info(f'Collected {len(results)} straggler result(s)')
-        # TODO: finalize the checkin args, then update this
-        #for result in results:
-        #    sceneDB.checkin_region(result.active, result.fixed,
-        #                           result.niter, mass_matrix=None)
+        for result in results:
+            sceneDB.checkin_region(result['final'], result['out'].fixed,
+                                   config.sampling_draws,
+                                   block_covs=result['covs'],
+                                   taskID=result['taskid'])
 
         ttotal = timer() - tstart
         logger.info(f"Finished in {ttotal:.1f}s")
-- 
2.43.0


From 10d61e4044e6fb033dcd80253a645a35aab7db8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:23 +0000
Subject: [PATCH 06/65] fix: non-blocking collect with no outstanding task
 returns nothing instead of failing

---
 forcepho/dispatcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 108d7f5..1c62149 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -87,6 +87,10 @@ class MPIQueue:
         if blocking and not self.irecv_handles:
             raise RuntimeError('blocking collect() requested but there are no outstanding tasks')
 
+        if not self.irecv_handles:
+            # MPI reports "undefined" rather than "none completed" in this case
+            return []
+
         statuses = [MPI.Status() for _ in range(len(self.irecv_handles))]
         if blocking == 'all':
             results = MPI.Request.waitall(self.irecv_handles, statuses)
-- 
2.43.0


From d8b278ec52a6a1db77931604002dd59b705621b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:23 +0000
Subject: [PATCH 07/65] fix: save the scene state atomically and never under
 the name of the log

---
 forcepho/superscene.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 0987ad7..9878231 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -90,10 +90,17 @@ class SuperScene:
     def writeout(self, filename=None):
         if filename is None:
             filename = self.statefilename
-        fits.writeto(filename, self.sourcecat, overwrite=True)
-        with open(filename.replace(".fits", "_log.json"), "w") as fobj:
-            logs = dict(sourcelog=self.sourcelog, patchlog=self.patchlog)
+        logname = os.path.splitext(filename)[0] + "_log.json"
+        logs = dict(sourcelog=self.sourcelog, patchlog=self.patchlog)
+        # Never write over a previous state in place, so that a complete version
+        # of each file exists at all times even if we die while writing.
+        tmpname, tmplogname = filename + ".tmp", logname + ".tmp"
+        with open(tmpname, "wb") as fobj:
+            fits.writeto(fobj, self.sourcecat)
+        with open(tmplogname, "w") as fobj:
             json.dump(logs, fobj)
+        os.replace(tmpname, filename)
+        os.replace(tmplogname, logname)
 
     @property
     def sparse(self):
-- 
2.43.0


From 2fd2ab663a42cdd546c3cec06f1b42fa1a075ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:23 +0000
Subject: [PATCH 08/65] fix: convert_pa moved angles that were already in range
 by half a turn

---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 9878231..886a4c0 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -1048,7 +1048,7 @@ def convert_pa(pa_in, from_deg=False, rotate=False, reverse=False, max_try=4):
     count = 0
     while count < max_try:
         p = pa > np.pi / 2
-        n = pa < np.pi / 2
+        n = pa < -np.pi / 2
         if (p.sum() == 0) & (n.sum() == 0):
             break
         else:
-- 
2.43.0


From 640658fddafeb73daa322d5326753f1b20b22459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:23 +0000
Subject: [PATCH 09/65] fix: adjust_bounds clips fluxes to their own upper
 bound and works on a SuperScene

---
 forcepho/superscene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 886a4c0..c76bd38 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -997,7 +997,7 @@ def adjust_bounds(sceneDB, bands, config=None,
         scat = active
     else:
         bcat = sceneDB.bounds_catalog
-        scat = sceneDB.source_catalog
+        scat = sceneDB.sourcecat
 
     if minflux is None:
         minflux = config.minflux
@@ -1019,7 +1019,7 @@ def adjust_bounds(sceneDB, bands, config=None,
         for b in bands:
             active[b][:] = np.clip(active[b][:],
                                    bcat[b][:, 0] + eps,
-                                   bcat[b][:, 0] - eps)
+                                   bcat[b][:, 1] - eps)
 
     if not isinstance(sceneDB, np.ndarray):
         sceneDB.check_bounds()
-- 
2.43.0


From d9ad56fa7e288ae24dd8b47e700a22dab71d2091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:23 +0000
Subject: [PATCH 10/65] fix: flux bounds of a zero flux source are not
 degenerate

---
 forcepho/superscene.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index c76bd38..9a47c0f 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -972,11 +972,9 @@ def flux_bounds(flux, unc1, snr_max=10, precisions=None):
 
     else:
         # this is wierd
-        snr = np.sqrt(np.abs(flux)) / unc1
-        #snr = np.minimum(snr, snr_max)
-
+        # i.e. snr = np.sqrt(np.abs(flux)) / unc1
         fmin = (unc1 / 2.)**2
-        noise = np.abs(flux) / snr
+        noise = np.sqrt(np.abs(flux)) * unc1
         lo = flux - noise
         hi = flux + noise
 
-- 
2.43.0


From 8274b0f343c892dbfc98047bde3cd73b02be6881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 11/65] fix: the posterior cache keeps its own copy of the
 position

---
 forcepho/model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 18f637e..435b882 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -284,7 +284,7 @@ class FastPosterior(Posterior):
         # --- initialize some things ---
         self.sampling = sampling
         self.ncall = 0
-        self._z = -99
+        self._z = np.nan
         self._q = -99
         self.mhalf = np.array(-0.5, dtype=np.float64)
 
@@ -345,7 +345,8 @@ class FastPosterior(Posterior):
         # Assumes Jacobian is diagonal
         self._lnp_grad = (ll_grad + lpr_grad) * self._jacobian
         self._q = q
-        self._z = z
+        # copy, since callers may reuse their array
+        self._z = np.array(z)
         # do volume correction when sampling
         if self.sampling:
             self._lnp += self._lndetjac
@@ -356,7 +357,7 @@ class FastPosterior(Posterior):
             print("chi2: {}".format(chi2))
 
         if self.logging:
-            self.pos_history.append(z)
+            self.pos_history.append(self._z)
             self.lnp_history.append(ll)
             self.grad_history.append(ll_grad)
 
@@ -430,7 +431,7 @@ class SlowPosterior(Posterior):
 
         # --- initialize some things ---
         self.ncall = 0
-        self._z = -99
+        self._z = np.nan
         self._q = -99
 
     def evaluate(self, z):
@@ -462,7 +463,8 @@ class SlowPosterior(Posterior):
         # gradient vector with a Jacobian matrix, but for now the jacobian is diagonal so this works
         self._lnp_grad = (ll_grad + lpr_grad) * self._jacobian + self._lndetjac_grad
         self._q = q
-        self._z = z
+        # copy, since callers may reuse their array
+        self._z = np.array(z)
 
     def residuals(self, Theta=None):
         """Construct model image (residuals) for the given parameter vecotrs.
-- 
2.43.0


From 3d2e2a2ace4ecc7e0f5329cff77c02d19d0a81ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 12/65] fix: changing the prior or the volume correction
 invalidates the cached posterior

---
 forcepho/model.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/forcepho/model.py b/forcepho/model.py
index 435b882..6694869 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -406,6 +406,27 @@ class FastPosterior(Posterior):
         return self._residuals
 
 
+    # The cached values depend on these, forget them when they are changed
+
+    @property
+    def sampling(self):
+        return self._sampling
+
+    @sampling.setter
+    def sampling(self, value):
+        self._sampling = value
+        self._z = np.nan
+
+    @property
+    def _lnpriorfn(self):
+        return self._prior
+
+    @_lnpriorfn.setter
+    def _lnpriorfn(self, value):
+        self._prior = value
+        self._z = np.nan
+
+
 class GPUPosterior(FastPosterior):
     """Alias for backwards compat.
     """
-- 
2.43.0


From a565f93d86820e744be0658f42587f41f29e879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 13/65] fix: log-determinant of the transform does not
 underflow with many parameters or far positions

---
 forcepho/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 6694869..94407ac 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -606,8 +606,7 @@ class Transform(object):
     def lndetjac(self, z):
         """ln(|dq/dz|)
         """
-        return np.log(np.abs(np.prod(self.jacobian(z))))
-        # return np.sum(np.log(self.jacobian(z)))
+        return np.sum(np.log(np.abs(self.jacobian(z))))
 
     def lndetjac_grad(self, z):
         return np.zeros(len(z))
@@ -649,6 +648,12 @@ class BoundedTransform(Transform):
         """
         return self.range * sigmoid_grad(z)
 
+    def lndetjac(self, z):
+        """ln(|dq/dz|), without underflow far from the origin
+        """
+        a = np.abs(z)
+        return np.sum(np.log(np.abs(self.range)) - a - 2 * np.log1p(np.exp(-a)))
+
     def lndetjac_grad(self, z):
         """d |J| / dz
         """
-- 
2.43.0


From eb54c7752ec11493a8572fcfa240ff08e8f5922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 14/65] fix: accept parameter bounds that are all zero on one
 side

---
 forcepho/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 94407ac..495b20a 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -62,7 +62,8 @@ class Posterior:
         self.ncall = 0
         self.ndof = 1.0
 
-        if (np.any(kwargs.get('lower')) and np.any(kwargs.get('upper'))) == bool(kwargs.get('transform')):
+        bounded = (kwargs.get('lower') is not None) and (kwargs.get('upper') is not None)
+        if bounded == (kwargs.get('transform') is not None):
             raise ValueError('Must specify either "transform" or ("lower","upper")')
 
         transform = kwargs.pop('transform', None)
-- 
2.43.0


From bdc16b19e0fbf32bfe6d800cd642ccdc28c0ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 15/65] fix: refuse to subtract fixed sources twice from the
 same pixel data on the CPU

---
 forcepho/patches/device_patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 00e9a5f..2f23fb6 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -541,7 +541,7 @@ class CPUPatchMixin(DevicePatchMixin):
         self.data, self.residual = self.residual, self.data
         # Pack pointers into structure and send structure to device
         _ = self.send_patchstruct_to_device()
-        #self._dirty_data = True
+        self._dirty_data = True
 
         return self.device_patch
 
-- 
2.43.0


From 8490051008fb753ce5bb0157867c2b4da08654b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 16/65] fix: an empty fixed or big catalog means there is
 nothing to subtract

---
 forcepho/patches/device_patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 2f23fb6..bea45b8 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -142,11 +142,11 @@ class DevicePatchMixin:
         # will not actually be subtracted, but will have meta data transferred
         # to GPU and ready to accept proposals.
         scenes = []
-        if big is not None:
+        if (big is not None) and (len(big) > 0):
             inds = np.arange(maxactive, len(big), maxactive)
             blocks = np.array_split(big, inds)
             scenes.extend([self.set_scene(block, **big_scene_kwargs) for block in blocks])
-        if fixed is not None:
+        if (fixed is not None) and (len(fixed) > 0):
             inds = np.arange(maxactive, len(fixed), maxactive)
             blocks = np.array_split(fixed, inds)
             scenes.extend([self.set_scene(block, **scene_kwargs) for block in blocks])
-- 
2.43.0


From dd9ae902698739a5d883c9986980ff73c30b8cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 17/65] fix: unit flux images of sources whose catalog flux is
 zero

---
 forcepho/patches/device_patch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index bea45b8..8eb5a1d 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -228,12 +228,16 @@ class DevicePatchMixin:
 
             # evaluate scene
             proposal = scene.get_proposal()
+            # a source without any flux still has an image, use unit flux
+            flux = np.array([active[i][b] for b in self.bandlist], dtype=float)
+            flux[flux == 0] = 1.0
+            proposal["fluxes"][0, :self.n_bands] = flux
             _, _, residual = proposer.evaluate_proposal(proposal, patch=self, unpack=False)
             # get model and split by band, normalize
             model = y - residual
             split = np.split(model, np.cumsum(self.band_N_pix[:-1]))
             for j, b in enumerate(self.bandlist):
-                Xes[j][i, :] = split[j] / active[i][b]
+                Xes[j][i, :] = split[j] / flux[j]
 
         return Xes, ys
 
-- 
2.43.0


From 7fcc1f7af85d7027d31a215f8957910a2dc47f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 18/65] fix: StorePatch needs the WCS of every exposure to find
 any of them

---
 forcepho/patches/pixel_patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index d0f3d58..c8bd3cc 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -250,7 +250,7 @@ class StorePatch(PixelPatch):
                          splinedata=splinedata,
                          spline_smoothing=spline_smoothing)
 
-        self.metastore = MetaStore(metastore)
+        self.metastore = MetaStore(metastore, load_all=True)
         self.pixelstore = PixelStore(pixelstore)
 
     def find_exposures(self, region, bandlist):
-- 
2.43.0


From 8ab8773ef36fae3c6e76bd9e57938b3ebf0e9a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 19/65] fix: find exposures that are narrower than the region
 or entirely inside of it

---
 forcepho/patches/pixel_patch.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index c8bd3cc..a7de186 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -206,6 +206,13 @@ class PixelPatch(Patch):
             to_cap = (self.ierr > 0) & (self.data * self.ierr > max_snr)
             self.ierr[to_cap] = max_snr / self.data[to_cap]
 
+    def _may_overlap(self, bx, by, imsize):
+        """Rough check whether a region whose bounding box has the given corner
+        coordinates in the image could overlap the image.
+        """
+        return ((bx.max() > 0) & (bx.min() < imsize[0]) &
+                (by.max() > 0) & (by.min() < imsize[1]))
+
     def find_exposures(self, region, bandlist):
         raise NotImplementedError
 
@@ -281,12 +288,9 @@ class StorePatch(PixelPatch):
             for expID in self.metastore.wcs[band].keys():
                 epath = "{}/{}".format(band, expID)
                 wcs = self.metastore.wcs[band][expID]
-                # Check region bounding box has a corner in the exposure.
-                # NOTE: If bounding box entirely contains image this might fail
+                # Check region bounding box could overlap the exposure.
                 bx, by = wcs.world_to_pixel_values(bra, bdec)
-                inim = np.any((bx > 0) & (bx < imsize[0]) &
-                              (by > 0) & (by < imsize[1]))
-                if inim:
+                if self._may_overlap(bx, by, imsize):
                     # check in more detail
                     sx, sy = region.contains(super_corners[..., 0],
                                              super_corners[..., 1],
@@ -415,17 +419,11 @@ class FITSPatch(PixelPatch):
                 hdr = fits.getheader(fitsfiles[i], self.sci_ext)
                 wcs = WCS(hdr)
                 # rough check for region coverage
-                # NOTE: If bounding box entirely contains image this might fail
                 if (region is not None) & do_check:
                     bra, bdec = region.bounding_box
                     imsize = hdr["NAXIS1"], hdr["NAXIS2"]
                     bx, by = wcs.world_to_pixel_values(bra, bdec)
-                    inim = np.any((bx > 0) & (bx < imsize[0]) &
-                                  (by > 0) & (by < imsize[1]))
-                    around_im = ((imsize[0] < bx.max()) & (bx.min() < 0) &
-                                 (imsize[1] < by.max()) & (by.min() < 0))
-                    inim = inim | around_im
-                    if not inim:
+                    if not self._may_overlap(bx, by, imsize):
                         continue
 
                 epaths.append(fitsfiles[i])
-- 
2.43.0


From ddfb046b7d179ae06ed9a8a5c723073addde7052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 20/65] fix: leave out FITS exposures without a pixel in the
 region instead of failing

---
 forcepho/patches/pixel_patch.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index a7de186..52b691b 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -425,6 +425,12 @@ class FITSPatch(PixelPatch):
                     bx, by = wcs.world_to_pixel_values(bra, bdec)
                     if not self._may_overlap(bx, by, imsize):
                         continue
+                    # check in more detail
+                    corners = self._pixel_corners(*imsize)
+                    sx, sy = region.contains(corners[..., 0], corners[..., 1], wcs)
+                    if len(sx) == 0:
+                        # skip this exposure
+                        continue
 
                 epaths.append(fitsfiles[i])
                 wcses.append(wcs)
@@ -433,6 +439,20 @@ class FITSPatch(PixelPatch):
 
         return hdrs, wcses, epaths, bands
 
+    def _pixel_corners(self, nx, ny):
+        """Coordinates of the corners of every pixel
+
+        Returns
+        -------
+        corners : ndarray of shape (nx, ny, 4, 2)
+        """
+        # NOTE: the x,y order swap here is important
+        yp, xp = np.meshgrid(np.arange(ny), np.arange(nx))
+        offsets = np.array([(0, 0), (1, 0), (1, 1), (0, 1)])
+        lower_left = np.array([xp, yp])
+        corners = offsets[:, :, None, None] + lower_left[None, :, :, :]
+        return corners.transpose(2, 3, 0, 1)
+
     def find_pixels(self, epath, wcs, region):
 
         # get pixel data, note the transpose
@@ -456,10 +476,7 @@ class FITSPatch(PixelPatch):
         if region is None:
             sx, sy = slice(None), slice(None)
         else:
-            offsets = np.array([(0, 0), (1, 0), (1, 1), (0, 1)])
-            lower_left = np.array([xp, yp])
-            corners = offsets[:, :, None, None] + lower_left[None, :, :, :]
-            corners = corners.transpose(2, 3, 0, 1)
+            corners = self._pixel_corners(nx, ny)
             sx, sy = region.contains(corners[..., 0], corners[..., 1], wcs)
 
         flux = flux[sx, sy].reshape(-1)
-- 
2.43.0


From 3da73c75d53af9cc76453813e724740eca55c7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 21/65] fix: DirectPatch finds its exposures, of the requested
 bands and in band order

---
 forcepho/patches/pixel_patch.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index 52b691b..ef543bd 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -546,17 +546,16 @@ class DirectPatch(PixelPatch):
         self.unc = None
 
     def find_exposures(self, region, bandlist, do_check=True):
-        epaths = list(self.wcs_dict.keys())
-        bands, hdrs, wcses = [], [], []
-
-        for epath in epaths:
-            hdr = self.header_dict[epath]
-            wcs = WCS(hdr)
-            band = hdr["FILTER"]
+        epaths, bands, hdrs, wcses = [], [], [], []
 
-            wcses.append(wcs)
-            bands.append(band)
-            hdrs.append(hdr)
+        for band in bandlist:
+            for epath, hdr in self.header_dict.items():
+                if hdr["FILTER"] != band:
+                    continue
+                epaths.append(epath)
+                wcses.append(WCS(hdr))
+                bands.append(band)
+                hdrs.append(hdr)
 
         return hdrs, wcses, epaths, bands
 
-- 
2.43.0


From f4b0eba28fb76559bf9ff5197a7d65d44bb89568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 22/65] fix: PixelStore.add_exposure does not modify the
 caller's images

---
 forcepho/patches/storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 1e6b5c4..96bc2bc 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -169,8 +169,9 @@ class PixelStore:
         hdr = imset.hdr
         band, expID = imset.band, imset.expID
 
-        im = imset.im
-        ierr = imset.ierr
+        # we work on copies, these belong to the caller
+        im = np.array(imset.im)
+        ierr = np.array(imset.ierr)
         # -- backgound subtract ---
         if imset.bkg is not None:
             bkg = imset.bkg
-- 
2.43.0


From 8d5f951ab9c77d031671ec6d4ff384f0c91106ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 23/65] fix: corners of non-square images when looking for
 exposures

---
 forcepho/patches/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 96bc2bc..ff6688e 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -469,7 +469,7 @@ class MetaStore:
                 imsize = hdr["NAXIS1"], hdr["NAXIS2"]
                 bbox = np.array([[0, 0],
                                  [0, imsize[1]],
-                                 [imsize[0], imsize[0]],
+                                 [imsize[0], imsize[1]],
                                  [imsize[0], 0]]).T
                 bbox = wcs.pixel_to_world_values(bbox[0], bbox[1])
                 bbox = np.array(bbox).T
-- 
2.43.0


From c0d1cf1c894a302eba792f5b2eb871637d1eef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 24/65] fix: a MetaStore filled by hand can look for exposures

---
 forcepho/patches/storage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index ff6688e..0f6a48a 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -314,6 +314,7 @@ class MetaStore:
     def __init__(self, metastorefile=None, use_gwcs=False, load_all=False):
         self.headers = {}
         self.tree = {}
+        self.wcs = {}
         if metastorefile is not None:
             self.headers = self.read_from_file(metastorefile)
             # GWCS?
@@ -326,8 +327,6 @@ class MetaStore:
             if load_all:
                 # build all the wcses
                 self.populate_wcs(gwcs_file=self.gwcs_file)
-            else:
-                self.wcs = {}
 
     def populate_wcs(self, gwcs_file=None):
         """Fill the dict of dict with WCS instances (based on either normal
-- 
2.43.0


From 03ccb55260525d814dac333cf08db37cb763f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:44 +0000
Subject: [PATCH 25/65] fix: replacing an exposure in the MetaStore replaces
 its WCS

---
 forcepho/patches/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 0f6a48a..a1ecfae 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -368,6 +368,8 @@ class MetaStore:
         if band not in self.headers:
             self.headers[band] = {}
         self.headers[band][expID] = hdr
+        # forget the WCS of any exposure that this replaces
+        self.wcs.get(band, {}).pop(expID, None)
         if hasattr(imset, "gwcs"):
             if band not in self.tree:
                 self.tree[band] = {}
-- 
2.43.0


From 274e60524b5a55d2a948edb30bd59fe6327b0644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:44 +0000
Subject: [PATCH 26/65] fix: honour command line options in every spelling that
 argparse accepts

---
 forcepho/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index e641006..7eea955 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -266,11 +266,13 @@ def rectify_config(config):
 
 
 def new_args(parser, argv):
+    # argparse leaves alone attributes that already exist, unless they are given
+    unset = object()
+    oconf = Namespace(**{k: unset for k in vars(parser.parse_args([]))})
+    oconf = parser.parse_args(argv, namespace=oconf)
     nconf = Namespace()
-    oconf = parser.parse_args(argv)
     for k, v in vars(oconf).items():
-        #if v == parset.get_default(k):
-        if f"--{k}" not in argv:  # Ugly HACK
+        if v is unset:
             continue
         setattr(nconf, k, v)
     return nconf
-- 
2.43.0


From 261771e627e421d63eb54e531309a98a25c78a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:44 +0000
Subject: [PATCH 27/65] fix: yaml_to_namespace accepts a dictionary as
 documented

---
 forcepho/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index 7eea955..2d7ac1b 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -210,7 +210,7 @@ def yaml_to_namespace(config_file):
         with open(config_file) as f:
             config_dict = yaml.load(f, Loader=yaml.Loader)
     elif type(config_file) is dict:
-        config_dict = yaml.load(config_file, Loader=yaml.Loader)
+        config_dict = config_file
 
     config = Namespace(**config_dict)
 
-- 
2.43.0


From 62907b2aebae26cd4f65b3b498c88e0d495d1168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:44 +0000
Subject: [PATCH 28/65] fix: a store directory with an unset store file is not
 an error

---
 forcepho/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index 2d7ac1b..07d4e39 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -243,7 +243,7 @@ def rectify_config(config):
                 n = getattr(config, attr)
                 new = os.path.join(config.store_directory, n)
                 setattr(config, attr, new)
-            except(AttributeError):
+            except(AttributeError, TypeError):
                 print("could not update {}storefile path".format(store))
 
     for k, v in vars(config).items():
-- 
2.43.0


From 01aa9b8052bebe4759c4bc2c9d11b0e24b6a49e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:44 +0000
Subject: [PATCH 29/65] fix: refuse proposals that exceed the kernel's compiled
 limits instead of overrunning its arrays

---
 forcepho/proposal.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/forcepho/proposal.py b/forcepho/proposal.py
index 4bd3bd5..51c1b5a 100644
--- a/forcepho/proposal.py
+++ b/forcepho/proposal.py
@@ -199,9 +199,15 @@ class CPUProposer(ProposerBase):
             The residual image (data - model) for each exposure.  No padding.
             Only returned if patch.return_residual.
         """
-        self.device_proposal = self.send_to_device(proposal)
-
         n_bands, n_sources = patch.n_bands, patch.n_sources
+        # the kernel has fixed size arrays and does not check these
+        for n, nmax, name in [(n_sources, MAXSOURCES, "sources"),
+                              (n_bands, MAXBANDS, "bands"),
+                              (patch.n_radii, MAXRADII, "mixture radii")]:
+            if n > nmax:
+                raise ValueError(f"{n} {name} exceed the limit of {nmax} set when the kernel was compiled")
+
+        self.device_proposal = self.send_to_device(proposal)
         chi_out = np.empty(n_bands, dtype=self.chi_dtype)
         chi_derivs_out = np.empty([n_bands, n_sources, NPARAMS])
 
-- 
2.43.0


From 17f5e4954667e19335231c4fc336ab9038bc0ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 30/65] fix: padding pixels do not end up in the last pixel of
 an image

---
 forcepho/postprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 813888f..c19d994 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -141,7 +141,9 @@ class Residuals:
             # Fill array with values for this patch
             xpix, ypix = self.handle[e]["xpix"][:].astype(int), self.handle[e]["ypix"][:].astype(int)
             arr = self.handle[e][fill_type][:]
-            images[e][xpix, ypix] = arr
+            # padding pixels have negative coordinates
+            g = (xpix >= 0) & (ypix >= 0)
+            images[e][xpix[g], ypix[g]] = arr[g]
 
         return images, headers
 
-- 
2.43.0


From 25a8d0b39a84237d747a60846ce6fb53b0b9fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 31/65] fix: images filled by one call do not show up in those
 of the next

---
 forcepho/postprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index c19d994..55161b3 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -121,10 +121,12 @@ class Residuals:
         pix = sky_to_pix(ra, dec, ee, ref_coords=self.reference_coordinates)
         return pix
 
-    def fill_images(self, images={}, headers={}, fill_type="residual",
+    def fill_images(self, images=None, headers=None, fill_type="residual",
                     metastore=None, imshape=(2048, 2048)):
         """Add the stored pixel data to the images in the supplied `images` dictionary.
         """
+        images = {} if images is None else images
+        headers = {} if headers is None else headers
         for e in self.exposures:
             # create the empty array
             if e not in images:
-- 
2.43.0


From 5856151bcbbcb629b254f2ad50e75eb2fccb58e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 32/65] fix: combine residual images in the order the patches
 were run

---
 forcepho/postprocess.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 55161b3..0886d3a 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -449,7 +449,16 @@ def write_images(root, subdir="image", metafile=None, show_model=False, show_chi
 
     files = glob.glob(os.path.join(root, "patches/*residuals.h5"))
     assert len(files) > 0
-    files.sort()
+    # go through the patches in the order they were run
+    try:
+        plog = [str(p) for p in run_metadata(root)[1]]
+    except(OSError):
+        plog = []
+    def run_order(name):
+        pid = os.path.basename(name).replace("patch", "").split("_")[0]
+        number = int(pid) if pid.isdigit() else -1
+        return plog.index(pid) if pid in plog else -1, number, name
+    files.sort(key=run_order)
 
     print(f"Writing to {root}/{subdir}")
     os.makedirs(f"{root}/{subdir}", exist_ok=True)
-- 
2.43.0


From 1351ce36b091d7c5c0e72d41e4b7406266083080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 33/65] fix: look up the samples of a patch by its id rather
 than its position in the log

---
 forcepho/postprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 0886d3a..1f6812f 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -374,7 +374,7 @@ def find_multipatch(root):
         A list of the posterior sample chains for each source.
     """
     config, plog, slog, final = run_metadata(root)
-    samples = [Samples(f"{root}/patches/patch{p}_samples.h5") for p in plog]
+    samples = {int(p): Samples(f"{root}/patches/patch{p}_samples.h5") for p in plog}
     chains, sources, patches = [], [], []
     for sid, pids in slog.items():
         if len(pids) == 1:
-- 
2.43.0


From 7e4bbd9909082f1a4825f888936cb729475c3744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 34/65] fix: catalog of selected patches has a row for every
 source rather than every patch

---
 forcepho/postprocess.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 1f6812f..279dc6c 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -270,8 +270,10 @@ def postsample_catalog(root, catname=None, patches=None):
     if patches is None:
         config, plog, slog, final = run_metadata(root)
         patches = plog
+        n_source = len(final)
     else:
-        final = patches
+        n_source = 1 + max([Samples(f"{root}/patches/patch{p}_samples.h5").active["source_index"].max()
+                            for p in patches])
 
     # Get catalog data type
     s = Samples(f"{root}/patches/patch{patches[0]}_samples.h5")
@@ -282,7 +284,7 @@ def postsample_catalog(root, catname=None, patches=None):
     new = np.dtype(icols + [(c, float, n_sample) for c in params])
 
     # Make and fill the catalog
-    cat = np.zeros(len(final), np.dtype(new))
+    cat = np.zeros(n_source, np.dtype(new))
     cat["id"] = -1
     for p in patches:
         s = Samples(f"{root}/patches/patch{p}_samples.h5")
-- 
2.43.0


From 079041df1c57923b25e9bca7d257820520f8bbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 35/65] fix: flux_unc_linear falls back to its default without
 a precision matrix

---
 forcepho/postprocess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 279dc6c..25f9383 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -350,6 +350,7 @@ def flux_unc_linear(root, snr_max=1000):
 
         if not hasattr(s, "precisions"):
             print(f"flux_unc_linear: No precisons for {patchfile}")
+            continue
 
         for i, b in enumerate(s.bands):
             flux = s.final[b]
-- 
2.43.0


From 8f8871c4c785cd479e68f0001378741b32299b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 36/65] fix: results can be written to the current directory

---
 forcepho/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index f4e7481..f22929f 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -189,7 +189,7 @@ class Result(object):
         """
         msgs = []
         import h5py
-        os.makedirs(os.path.dirname(filename), exist_ok=True)
+        os.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
         with h5py.File(filename, "w") as out:
             for name, value in vars(self).items():
                 if type(value) == np.ndarray:
-- 
2.43.0


From 038cd4b922088d57a99811be24c10d00036601fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:30 +0000
Subject: [PATCH 37/65] fix: a random LinkedSuperScene checkout tries other
 seeds when the region of the first is not available

---
 forcepho/superscene.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 9a47c0f..ebb3541 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -678,13 +678,20 @@ class LinkedSuperScene(SuperScene):
             The sourcecat entries for the fixed sources in the scene.  Can be
             `None` if there were no fixed sources within the minimum radius.
         """
-        if seed_index < 0:
-            seed_index = np.random.choice(self.n_sources, p=self.seed_weight())
-
-        region, active_inds, fixed_inds = self.grow_scene(seed_index, max_fixed)
+        # a randomly drawn seed can be too close to a region that is already
+        # checked out, in which case we try a few others.
+        n_try = 10 if seed_index < 0 else 1
+        for i in range(n_try):
+            seed = seed_index
+            if seed_index < 0:
+                seed = np.random.choice(self.n_sources, p=self.seed_weight())
+            region, active_inds, fixed_inds = self.grow_scene(seed, max_fixed)
+            valid = (active_inds is not None) and self._available(active_inds, fixed_inds)
+            if valid:
+                break
         # Deal with case that region is invalid
-        if (active_inds is None) or not self._available(active_inds, fixed_inds):
-            return (region, seed_index), None, None
+        if not valid:
+            return (region, seed), None, None
         if len(fixed_inds) == 0:
             fixed = None
         else:
-- 
2.43.0


From ca2e2e8a3d2cff7debe879c7856f2e6ad088044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:54 +0000
Subject: [PATCH 38/65] fix: submitting to the queue without a tag sends a
 valid MPI message

---
 forcepho/dispatcher.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 1c62149..1e2676a 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -121,8 +121,10 @@ class MPIQueue:
         child process at the top of the (idle) queue. If no children are idle,
         an error is raised.
         """
+        send_tag = tag
         if tag == 'any':
-            tag = MPI.ANY_TAG
+            # any tag can be received, but a message has to be sent with some tag
+            send_tag, tag = 0, MPI.ANY_TAG
 
         # Why make this an error rather than queue it up for later?
         # Because we want to generate tasks with the freshest SuperScene info
@@ -137,7 +139,7 @@ class MPIQueue:
         logger.info(f'Sending task {tag} to child {child}')
         if child in self.busy:
             raise ValueError(f'About to send task to child {child} that is already busy!')
-        self.comm.send(task, dest=child, tag=tag)
+        self.comm.send(task, dest=child, tag=send_tag)
         # Queue up the eventual receive of the result
         irecv_bufsize = int(10e6)  # TODO: have to specify a max recv size. Better way to do this? The Jades demo payload is 50 KB.
         rreq = self.comm.irecv(irecv_bufsize, source=child, tag=tag)
-- 
2.43.0


From 54f6cb7b7c5a79d3b15f4453086b4fee47b038c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:25 +0000
Subject: [PATCH 39/65] fix: make_bounds accepts a positional width per source
 as documented

---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index ebb3541..b5d2a27 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -876,7 +876,7 @@ def make_bounds(active, filternames, shapenames=Galaxy.SHAPE_COLS, unccat=None,
         dpos = np.ones(2) * n_pix * pixscale
 
     dra = dpos[0] / 3600. / np.cos(np.deg2rad(active["dec"]))
-    ddec = np.array([dpos[1] / 3600.])
+    ddec = np.zeros(len(active)) + dpos[1] / 3600.
 
     # Make empty bounds catalog
     colnames = filternames + shapenames
-- 
2.43.0


From 86fb0df7632bf44234c57e38d918eb1128fb3283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:20 +0000
Subject: [PATCH 40/65] fix: the linear flux solution leaves the patch prepared
 for the active scene

---
 forcepho/patches/device_patch.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 8eb5a1d..2d0efed 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -209,6 +209,10 @@ class DevicePatchMixin:
         y = self.retrieve_array("data")
         ys = np.split(y, np.cumsum(self.band_N_pix[:-1]))
 
+        # Remember the prepared scene, to restore it when we're done
+        names = self.meta_names + ["scene", "patch_reference_coordinates", "return_residual"]
+        prepared = {n: getattr(self, n) for n in names}
+
         Xes = [np.zeros((len(active), n)) for n in self.band_N_pix]
         scenes = [self.set_scene([a], **scene_kwargs)
                   for a in active]
@@ -239,6 +243,12 @@ class DevicePatchMixin:
             for j, b in enumerate(self.bandlist):
                 Xes[j][i, :] = split[j] / flux[j]
 
+        # Put the metadata of the prepared scene back
+        for n, value in prepared.items():
+            setattr(self, n, value)
+        self.replace_device_meta_ptrs()
+        self.send_patchstruct_to_device()
+
         return Xes, ys
 
     def render(self, catalog, splinedata=None):
-- 
2.43.0


From 1bc13ec2ae936f9acc2f5a2cb5c9cb3b07b20f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:20 +0000
Subject: [PATCH 41/65] fix: SlowPosterior can be evaluated without a prior and
 asked for residuals at a position

---
 forcepho/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 495b20a..74ab07f 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -453,6 +453,8 @@ class SlowPosterior(Posterior):
 
         # --- initialize some things ---
         self.ncall = 0
+        self.ndof = 1.0
+        self._lnpriorfn = None
         self._z = np.nan
         self._q = -99
 
@@ -491,7 +493,7 @@ class SlowPosterior(Posterior):
     def residuals(self, Theta=None):
         """Construct model image (residuals) for the given parameter vecotrs.
         """
-        if Theta:
+        if Theta is not None:
             self.scene.set_all_source_params(Theta)
         self._residuals = [plan.stamp.pixel_values - make_image(self.scene, plan.stamp)[0]
                            for plan in self.plans]
-- 
2.43.0


From cff0def915cb8642c119552fee16eef795d8edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:17 +0000
Subject: [PATCH 42/65] fix: integer masks mask their own pixels in the
 PixelStore

---
 forcepho/patches/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index a1ecfae..fc3f515 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -185,7 +185,8 @@ class PixelStore:
             if bitmask:
                 # just check that any of the bad bits are set
                 pmask = np.bitwise_and(pmask, bitmask) != 0
-            mask = mask | pmask
+            # masks may be integer images
+            mask = mask | (pmask != 0)
         ierr[mask] = 0
         im[mask] = 0
         # let masked pixels provide a sampling of the subtracted background
-- 
2.43.0


From 808ae8b7303db786ddee292d4e961830de7e4cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:48 +0000
Subject: [PATCH 43/65] fix: a Gaussian PSF of given FWHM has that width

---
 forcepho/slow/psf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/slow/psf.py b/forcepho/slow/psf.py
index 367bd6e..ca05e9a 100644
--- a/forcepho/slow/psf.py
+++ b/forcepho/slow/psf.py
@@ -110,7 +110,7 @@ def get_psf(psfname=None, fwhm=1.0, psf_realization=0,
 
     else:
         psf = PointSpreadFunction()
-        psf.covariances *= fwhm / 2.355
+        psf.covariances *= (fwhm / 2.355)**2
 
     return psf
 
-- 
2.43.0


From 8400cc16185693a59b0120655e7bc9927c62a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:48 +0000
Subject: [PATCH 44/65] fix: oldstyle PSF files can be read without giving the
 number of gaussians

---
 forcepho/slow/psf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/slow/psf.py b/forcepho/slow/psf.py
index ca05e9a..b57416c 100644
--- a/forcepho/slow/psf.py
+++ b/forcepho/slow/psf.py
@@ -98,7 +98,7 @@ def get_psf(psfname=None, fwhm=1.0, psf_realization=0,
                 pdat = pickle.load(pf)
 
             if n_gauss is None:
-                n_gauss = pdat.keys()[0]
+                n_gauss = list(pdat.keys())[0]
             answer = pdat[n_gauss][psf_realization]
             psf = make_psf(answer, oversample=oversample, center=center)
         # newstyle
-- 
2.43.0


From 1c5686b9a96e3e532a66771b683e1f62ea99e3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:48 +0000
Subject: [PATCH 45/65] fix: centers of PSF mixtures fit to non-square images

---
 forcepho/mixtures/utils_em.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/mixtures/utils_em.py b/forcepho/mixtures/utils_em.py
index 27e0b90..05f77e4 100644
--- a/forcepho/mixtures/utils_em.py
+++ b/forcepho/mixtures/utils_em.py
@@ -106,7 +106,8 @@ def psf_mixture(psfimname, band, nmix, nrepeat=5,
     for i, r in enumerate(results):
         # Note this flips the x and y axes from what is in `result`
         # It also makes sure x and y are relative to the center in the full image
-        pars = params_to_gauss(r, oversample=oversample, start=start, center=center_full)
+        pars = params_to_gauss(r, oversample=oversample,
+                               start=start[::-1], center=center_full[::-1])
         x, y, vx, vy, vxy, amp = pars
         for j in range(nmix):
             parameters[i, j] = (x[j], y[j], vx[j], vy[j], vxy[j], amp[j])
-- 
2.43.0


From e51e8fb3daf77009f3c9498a2c25f20cd0ed9699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:19 +0000
Subject: [PATCH 46/65] fix: Kron radius within a maximum radius

---
 forcepho/utils/profile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forcepho/utils/profile.py b/forcepho/utils/profile.py
index bef7bea..02370b1 100644
--- a/forcepho/utils/profile.py
+++ b/forcepho/utils/profile.py
@@ -23,11 +23,11 @@ def frac_sersic(radius, rhalf=None, sersic=2.0):
 
 def kron_radius(rhalf, sersic, rmax=None):
     k = gammaincinv(2 * sersic, 0.5)
+    c = gamma(3 * sersic) / gamma(2 * sersic)
     if rmax:
         x = k*(rmax / rhalf)**(1./sersic)
-        c = gammainc(3 * sersic, x) / gammainc(2 * sersic, x)
-    else:
-        c = gamma(3 * sersic) / gamma(2 * sersic)
+        # note gammainc(a, x) is normalized by gamma(a)
+        c *= gammainc(3 * sersic, x) / gammainc(2 * sersic, x)
     r_kron = rhalf / k**sersic * c
     return r_kron
 
-- 
2.43.0


From bad2b8934891876b466473f35edb31d01d991715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:19 +0000
Subject: [PATCH 47/65] fix: appended catalogs can be read by extension name

---
 forcepho/utils/catalog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/utils/catalog.py b/forcepho/utils/catalog.py
index 63b13d0..1f1d889 100644
--- a/forcepho/utils/catalog.py
+++ b/forcepho/utils/catalog.py
@@ -49,7 +49,9 @@ def append_catalogs(infilenames, out):
                     catlists[i].append(hdul[ext].data.copy())
                 except(KeyError):
                     catlists[i].append(hdul[i].data.copy())
-            hdr = hdul[1].header
+            # do not carry over the structure and name of the first table
+            hdr = hdul[1].header.copy(strip=True)
+            hdr.remove("EXTNAME", ignore_missing=True)
 
     cats = [np.concatenate(catlist)
             for catlist in catlists]
-- 
2.43.0


From 508b08ef2df4beb1263f296f0ccc245116293340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:17 +0000
Subject: [PATCH 48/65] fix: append catalogs without extension names

---
 forcepho/utils/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/utils/catalog.py b/forcepho/utils/catalog.py
index 1f1d889..587c462 100644
--- a/forcepho/utils/catalog.py
+++ b/forcepho/utils/catalog.py
@@ -48,7 +48,7 @@ def append_catalogs(infilenames, out):
                 try:
                     catlists[i].append(hdul[ext].data.copy())
                 except(KeyError):
-                    catlists[i].append(hdul[i].data.copy())
+                    catlists[i].append(hdul[i+1].data.copy())
             # do not carry over the structure and name of the first table
             hdr = hdul[1].header.copy(strip=True)
             hdr.remove("EXTNAME", ignore_missing=True)
-- 
2.43.0


From a7eb1ed69e1b4d7e6679260e347717bfa15200fd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:38:22 +0000
Subject: [PATCH 49/65] fix: offsets of PSF components given in arcsec are
 transformed component by component

---
 forcepho/slow/gaussmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/slow/gaussmodel.py b/forcepho/slow/gaussmodel.py
index 6b926be..8c4cccc 100644
--- a/forcepho/slow/gaussmodel.py
+++ b/forcepho/slow/gaussmodel.py
@@ -125,7 +125,7 @@ def convert_to_gaussians(source, stamp, compute_deriv=False):
     # get PSF component means and covariances in the pixel space
     if psf.units == 'arcsec':
         pcovar = fast_matmul_matmul_2x2(D, psf.covariances, D.T)
-        pmeans = np.matmul(D, psf.means)
+        pmeans = np.matmul(psf.means, D.T)
         # FIXME need to adjust amplitudes to still sum to one?
         pamps = psf.amplitudes
     elif psf.units == 'pixels':
-- 
2.43.0


From f66107319899f97bfdcfef9da7f3808d0f385ac4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:38:22 +0000
Subject: [PATCH 50/65] fix: WorkPlan includes its fixed sources in the model
 image, like FastWorkPlan

---
 forcepho/slow/likelihood.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index c1c7327..908ab59 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -236,6 +236,14 @@ class WorkPlan(object):
                 # pixels *HERE* to avoid storage
                 self.gradients[i, :, :] += np.matmul(g.derivs, dI_dphi)
 
+        # Fixed sources contribute to the residual but have no gradients
+        keywords = dict(self.compute_keywords, compute_deriv=False)
+        for i, gig in enumerate(self.fixed):
+            for g in gig.gaussians:
+                self.residual[self.nactive + i, ...] -= compute_gaussian(g, self.stamp.xpix.reshape(-1),
+                                                                         self.stamp.ypix.reshape(-1),
+                                                                         **keywords)
+
     def lnlike(self, active=None, fixed=None):
         """Returns a scalar chi^2 value and a chi^2 gradient array of
         shape (nactive, NDERIV)
-- 
2.43.0


From 21b0f1b68028d5610eea339922d81a7f58a7356b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 51/65] fix: the compute_keywords of one work plan do not leak
 into every other

---
 forcepho/slow/likelihood.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index 908ab59..9917871 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -205,6 +205,8 @@ class WorkPlan(object):
             stamp).
         """
         self.stamp = stamp
+        # plans change their keywords, do not share them
+        self.compute_keywords = dict(self.compute_keywords)
         self.active = active
         self.fixed = fixed
         self.reset()
-- 
2.43.0


From 9e0fbfe2adabc33afb7d2ec65540df88bc389d40 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:39:07 +0000
Subject: [PATCH 52/65] fix: slow likelihood treats sources flagged as fixed as
 fixed, and indexes the parameters after them

---
 forcepho/slow/likelihood.py | 2 +-
 forcepho/sources.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index 9917871..fdc3aca 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -153,7 +153,7 @@ def plan_sources(plan, scene, stamp_index=None):
             # OFF IMAGE
             continue
         gig = convert_to_gaussians(source, stamp)
-        if coverage == 1:
+        if (coverage == 1) or source.fixed:
             # FIXED
             fixed.append(gig)
             continue
diff --git a/forcepho/sources.py b/forcepho/sources.py
index 7b7545e..fca05c9 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -204,7 +204,7 @@ class Scene(object):
         inds : ndarray of ints
             Indices of the parameters for this source.
         """
-        npar_per_source = [s.n_params for s in self.active_sources[:sid]]
+        npar_per_source = [s.n_params for s in self.sources[:sid] if not s.fixed]
         # get all the shape parameters
         source = self.sources[sid]
         start = int(np.sum(npar_per_source))
-- 
2.43.0


From 87784a9f6ee496ba03bb63b3a1ad67bd850daab2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:39:07 +0000
Subject: [PATCH 53/65] fix: slow likelihood gradients of conformal shear
 galaxies are with respect to their shear parameters

---
 forcepho/slow/likelihood.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index fdc3aca..a053cc1 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -160,6 +160,10 @@ def plan_sources(plan, scene, stamp_index=None):
         if coverage > 1:
             # ACTIVE
             gig = get_gaussian_gradients(source, stamp, gig)
+            if hasattr(source, "ds_deta"):
+                # convert d/dq, d/dphi to d/deta_+, d/deta_x
+                for g in gig.gaussians:
+                    g.derivs[3:5] = np.matmul(source.ds_deta, g.derivs[3:5])
             active.append(gig)
             # get indices of parameters of the source in the giant Theta array
             theta_inds += scene.param_indices(j, plan.stamp.filtername)
-- 
2.43.0


From ec539ee18f23e1ebf368458dec5ace5a64439283 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:39:17 +0000
Subject: [PATCH 54/65] fix: the ln-probability of an optimisation result is
 that of its position

---
 forcepho/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index f22929f..6e976fa 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -444,7 +444,7 @@ def run_opt(model, q, jac=True, callback=None, **extras):
     if model.transform is not None:
         result.chain = model.transform.transform(result.chain)
 
-    result.lnp = -0.5 * scires.fun
+    result.lnp = -scires.fun
     result.wall_time = tsample
 
     result.fun = scires.fun
@@ -489,7 +489,7 @@ def run_opt_bounded(model, q, jac=True, callback=None, **extras):
     if model.transform is not None:
         result.chain = model.transform.transform(result.chain)
 
-    result.lnp = -0.5 * scires.fun
+    result.lnp = -scires.fun
     result.wall_time = tsample
 
     result.fun = scires.fun
-- 
2.43.0


From 35dd39c7afe775adcf1c143ff025b18f5f68dd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 55/65] fix: place residuals of exposures kept in folders into
 images

Exposure identifiers may contain folders (see header_to_id), and then looking up
their header in the metadata store failed when filling images.
---
 forcepho/postprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 25f9383..482e392 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -131,7 +131,7 @@ class Residuals:
             # create the empty array
             if e not in images:
                 if metastore is not None:
-                    band, exp = e.split("/")
+                    band, exp = e.split("/", 1)
                     hdr = metastore.headers[band][exp]
                     imshape = (hdr["NAXIS1"], hdr["NAXIS2"])
                     headers[e] = hdr
-- 
2.43.0


From a82f9636a0a86fece47ffe22ac31d2c7f9816195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:46 +0000
Subject: [PATCH 56/65] fix: refuse scenes beyond the compiled limits on the
 GPU too

---
 forcepho/proposal.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/forcepho/proposal.py b/forcepho/proposal.py
index 51c1b5a..9b5f5eb 100644
--- a/forcepho/proposal.py
+++ b/forcepho/proposal.py
@@ -35,6 +35,15 @@ class ProposerBase:
     def evaluate_proposal(self, proposal, **kwargs):
         raise NotImplementedError
 
+    def check_limits(self, patch):
+        """The kernels have fixed size arrays and do not check these
+        """
+        for n, nmax, name in [(patch.n_sources, MAXSOURCES, "sources"),
+                              (patch.n_bands, MAXBANDS, "bands"),
+                              (patch.n_radii, MAXRADII, "mixture radii")]:
+            if n > nmax:
+                raise ValueError(f"{n} {name} exceed the limit of {nmax} set when the kernel was compiled")
+
     def unpack_residuals(self, residuals_flat, patch, reshape=False):
         """Unpack flat, padded residuals into original images
         """
@@ -119,6 +128,7 @@ class GPUProposer(ProposerBase):
             patch = self.patch
 
         n_bands, n_sources = patch.n_bands, patch.n_sources
+        self.check_limits(patch)
         self.grid = (n_bands, 1)
 
         chi_out = np.empty(n_bands, dtype=self.chi_dtype)
@@ -200,12 +210,7 @@ class CPUProposer(ProposerBase):
             Only returned if patch.return_residual.
         """
         n_bands, n_sources = patch.n_bands, patch.n_sources
-        # the kernel has fixed size arrays and does not check these
-        for n, nmax, name in [(n_sources, MAXSOURCES, "sources"),
-                              (n_bands, MAXBANDS, "bands"),
-                              (patch.n_radii, MAXRADII, "mixture radii")]:
-            if n > nmax:
-                raise ValueError(f"{n} {name} exceed the limit of {nmax} set when the kernel was compiled")
+        self.check_limits(patch)
 
         self.device_proposal = self.send_to_device(proposal)
         chi_out = np.empty(n_bands, dtype=self.chi_dtype)
-- 
2.43.0


From 7c49436ff811a6804ba8367f3794d3f403973871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:36 +0000
Subject: [PATCH 57/65] fix: freeing a patch releases its memory on the GPU

---
 forcepho/patches/patch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forcepho/patches/patch.py b/forcepho/patches/patch.py
index 58bf25f..1c413cc 100644
--- a/forcepho/patches/patch.py
+++ b/forcepho/patches/patch.py
@@ -112,7 +112,10 @@ class PatchBase:
                 pass
 
     def free(self):
-        pass
+        # this comes before the device mix-ins in the method resolution order
+        release = getattr(super(), "free", None)
+        if release is not None:
+            release()
 
     def __del__(self):
         self.free()  # do we want to do this?
-- 
2.43.0


From 146147124a63973d2b2cf364b122662bb1bb683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:45 +0000
Subject: [PATCH 58/65] fix: Gaussian mixtures with free dispersions can be
 fitted to Sersic profiles

---
 forcepho/mixtures/sersic_mix_oned.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/mixtures/sersic_mix_oned.py b/forcepho/mixtures/sersic_mix_oned.py
index 8d20526..aba5e07 100644
--- a/forcepho/mixtures/sersic_mix_oned.py
+++ b/forcepho/mixtures/sersic_mix_oned.py
@@ -97,8 +97,8 @@ def chisq(params, x=None, target=None, radii=None,
         disps = np.exp(radii)
         amps = np.exp(params[:len(radii)])
     else:
-        amps = np.exp(params[:len(params)/2])
-        disps = np.exp(params[len(params)/2:])
+        amps = np.exp(params[:len(params)//2])
+        disps = np.exp(params[len(params)//2:])
     # this is to account for two-d normalization and smoothing
     disps = np.hypot(disps, smoothing)
     amps /= disps * np.sqrt(2 * np.pi)
-- 
2.43.0


From e136f2e412255e7693d0401c58dbe2f9793025b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:45 +0000
Subject: [PATCH 59/65] fix: mark true values in the panel of their parameters

---
 forcepho/utils/corner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forcepho/utils/corner.py b/forcepho/utils/corner.py
index 93c9144..7787199 100644
--- a/forcepho/utils/corner.py
+++ b/forcepho/utils/corner.py
@@ -154,6 +154,7 @@ def show_extras(samples, labels, paxes, weights=None,
         for j, yy in enumerate(samples[:i]):
             if j >= i:
                 continue
+            ax = paxes[i, j]
             # Add truth values
             if truths is not None:
                 if truths[j] is not None:
-- 
2.43.0


From 7f2777d8e83181928f0d58d517a529e18147f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:45 +0000
Subject: [PATCH 60/65] fix: an unweighted histogram can be scaled to a peak

---
 forcepho/utils/corner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forcepho/utils/corner.py b/forcepho/utils/corner.py
index 7787199..8f26a83 100644
--- a/forcepho/utils/corner.py
+++ b/forcepho/utils/corner.py
@@ -524,6 +524,8 @@ def marginal(x, ax=None, weights=None, span=None, smooth=0.02,
 
     n, b = np.histogram(xx, bins=bins, weights=wght, range=np.sort(span))
     if peak is not None:
+        if wght is None:
+            wght = np.ones(len(xx))
         wght = wght * peak / n.max()
 
     n, b, _ = ax.hist(xx, bins=bins, weights=wght, range=np.sort(span),
-- 
2.43.0


From 8a44761ae36f2af327648bbed78e93ab16a6c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:06 +0000
Subject: [PATCH 61/65] fix: chains of results without bounds, or without
 further bands, can be shown

---
 forcepho/fitting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index 6e976fa..ce4b354 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -237,11 +237,12 @@ class Result(object):
         if show_shapes:
             cols = cols + self.shape_cols
         q = 100 * np.array([0.5 - 0.5 * span, 0.5 + 0.5 * span])
+        ax = None
         for i, col in enumerate(cols):
             ax = axes.flat[i]
             xx = self.chaincat[source_idx][col]
             lim = np.percentile(xx, list(q))
-            if self.bounds is not None:
+            if getattr(self, "bounds", None) is not None:
                 lim = self.bounds[source_idx][col]
 
             ax.plot(xx, **post_kwargs)
-- 
2.43.0


From edf7b60648ece1c816aebe4a9a6fe804117e622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:06 +0000
Subject: [PATCH 62/65] fix: the style of source marks does not leak into later
 calls

---
 forcepho/postprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 482e392..941475f 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -81,7 +81,7 @@ class Residuals:
 
         apix = self.sky_to_pix(ra, dec, e, exp)
 
-        plot_kwargs.update(extras)
+        plot_kwargs = dict(plot_kwargs, **extras)
         axes = np.atleast_1d(axes)
         [ax.plot(apix[:, 0], apix[:, 1], **plot_kwargs) for ax in axes]
 
-- 
2.43.0


From 31100679140f7189f94e4e0691dde18fa1184f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:06 +0000
Subject: [PATCH 63/65] fix: residual_pdf shows all patches, also of the last
 page

---
 forcepho/postprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 941475f..25b874d 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -523,11 +523,11 @@ def residual_pdf(root="opt_all_v0.5_full", n=3, e=3):
     """
     npatch = len(glob.glob(f"{root}/patches/*samples*h5"))
     patches = range(npatch)
-    J = npatch // n
+    J = -(-npatch // n)
 
     pdf = PdfPages(f"{root}/{os.path.basename(root)}_residuals_{e}.pdf")
     for j in range(J):
-        fig, ax = pl.subplots(n, 3, sharex="row", sharey="row")
+        fig, ax = pl.subplots(n, 3, sharex="row", sharey="row", squeeze=False)
         for i, p in enumerate(patches[n*j:n*(j+1)]):
             residuals = Residuals(f"{root}/patches/patch{p}_residuals.h5")
             samples = Samples(f"{root}/patches/patch{p}_samples.h5")
@@ -535,7 +535,7 @@ def residual_pdf(root="opt_all_v0.5_full", n=3, e=3):
                 residuals.show(e, axes=ax[i, [0, 2, 1]], vmin=-0.5, vmax=0.5)
             #residuals.mark_sources(samples.active["ra"], samples.active["dec"],
             #                       e, axes=[ax[i, 0]], color="magenta")
-                print(samples.message, samples.ncall)
+                print(getattr(samples, "message", ""), getattr(samples, "n_call", ""))
             #print(samples.active[0]["source_index"])
                 if hasattr(samples, "fixed"):
                     residuals.mark_sources(samples.fixed["ra"], samples.fixed["dec"],
-- 
2.43.0


From cc9361fd887a0031269d9ad13dc486be7bf22293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:06 +0000
Subject: [PATCH 64/65] fix: chain_pdf for chains without tuning samples

---
 forcepho/postprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 25b874d..e44f76c 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -560,7 +560,7 @@ def chain_pdf(samples, fn="./chain.pdf", dh=1.0):
     nb = len(samples.bands)
     pdf = PdfPages(fn)
     for i in range(ns):
-        tuning = max(np.where(samples.stats["tune"])[0])
+        tuning = np.max(np.where(samples.stats["tune"])[0], initial=0)
         act = samples.active[i]
         ncol, nrow = 2, max(7, nb-1)
         fs = (nrow * dh * 7./5., nrow * dh)
-- 
2.43.0


From 39d8c11cf9f2d65fb4c6a5310cbeb45ab6c51753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:08 +0000
Subject: [PATCH 65/65] fix: check_multipatch knows the columns of the chains

---
 forcepho/postprocess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index e44f76c..317b66d 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -398,6 +398,7 @@ def check_multipatch(root, n_sample=256):
     stats = {}
     for s, p, c in zip(sid, pids, chains):
         stats[s] = {}
+        vcols = [col for col in c.dtype.names if col != "source_index"]
         for col in vcols:
             sm = c[col][:, -n_sample:]
             stats[s][col] = sm.mean(axis=-1), sm.std(axis=-1)
-- 
2.43.0

