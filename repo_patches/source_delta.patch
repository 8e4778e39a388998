From c7f143c2e23fc7ba52c2932ede45f03f43f88601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:32 +0000
Subject: [PATCH 01/63] fix: look up the zero-width flag by domain, not by the
 rank it is assigned to

gridnd_fill indexed domain_is_degenerate with the rank returned by
DomainAssign. Whenever domains are not assigned to the rank of the same
number, particles of ordinary domains were silently dropped, and particles
were delivered to ranks for domains of zero width.
---
 pmesh/_domain.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/_domain.pyx b/pmesh/_domain.pyx
index cd54a08..f3e6727 100644
--- a/pmesh/_domain.pyx
+++ b/pmesh/_domain.pyx
@@ -78,9 +78,11 @@ def gridnd_fill(
                     while t < 0:
                         t += dims[j]
                 target = target + t * strides[j]
-            target = DomainAssign[target]
 
+            # the flag is indexed by domain, so look it up before mapping the
+            # domain to the rank it is assigned to.
             if not domain_is_degenerate[target]:
+                target = DomainAssign[target]
                 # build a sorted target_list
                 # bubble sort (for patch_size is small)
                 target_list[k] = target
-- 
2.43.0


From 0b4de8eb8efa8b7fbf6737d2ba930ef1d5f51b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:02 +0000
Subject: [PATCH 02/63] fix: deliver particles whose smoothing interval wraps
 around the box

decompose() reduced the two ends of the smoothing interval to domain
numbers modulo the number of domains, so an interval that reaches around the
periodic box back into the particle's own domain lost the domains in
between (smoothing near or beyond the box, or one wide domain).
---
 pmesh/domain.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 8768aac..08fec4e 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -614,12 +614,16 @@ class GridND(object):
                     if periodic:
                         boxsize = self.edges[j][-1]
                         c = tmp % boxsize
-                        l = self._digitize((c - smoothing[j]) % boxsize, self.edges[j], right=False)
-                        r = self._digitize((c + smoothing[j]) % boxsize, self.edges[j], right=False)
-                        p = self._digitize(c, self.edges[j], right=False)
-                        l = p - (p - l) % self.shape[j] - 1
-                        r = p + (r - p) % self.shape[j]
-                        #print(l, p, r)
+                        # beyond one period every domain is touched anyways.
+                        width = min(smoothing[j], boxsize)
+                        # keep track of the periods crossed by the left and right edges,
+                        # they can end in the domain of the particle after wrapping around.
+                        nl, l = numpy.divmod(c - width, boxsize)
+                        nr, r = numpy.divmod(c + width, boxsize)
+                        l = self._digitize(l, self.edges[j], right=False) + nl * self.shape[j] - 1
+                        r = self._digitize(r, self.edges[j], right=False) + nr * self.shape[j]
+                        # visit each domain no more than once.
+                        r = numpy.minimum(r, l + self.shape[j])
                         sil[j, s] = l
                         sir[j, s] = r
                     else:
-- 
2.43.0


From 43398742a33444ac88e39c2344d7a856e246323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:10 +0000
Subject: [PATCH 03/63] fix: Layout.gather with a ufunc when a particle has no
 images

A particle outside of the edges of a non-periodic grid is delivered nowhere.
reduceat returned another particle's value for it, or raised IndexError if it
was the last one; now it gets the identity of the ufunc (0 if there is none).
---
 pmesh/domain.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 08fec4e..65575e7 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -300,7 +300,15 @@ class Layout(object):
             N = numpy.bincount(self.indices, minlength=self.sendlength)
             offset = numpy.zeros(self.sendlength, 'intp')
             offset[1:] = numpy.cumsum(N)[:-1]
-            return mode.reduceat(recvbuffer, offset, out=out)
+            # reduceat can't do empty segments; an item can have no images at all if
+            # it is outside of the edges of a non-periodic grid.
+            nonempty = N > 0
+            result = mode.reduceat(recvbuffer, offset[nonempty])
+            if out is None:
+                out = numpy.zeros((self.sendlength,) + result.shape[1:], dtype=result.dtype)
+            out[nonempty] = result
+            out[~nonempty] = 0 if mode.identity is None else mode.identity
+            return out
 
         if mode == 'mean':
             N = numpy.bincount(self.indices, minlength=self.sendlength)
-- 
2.43.0


From 2b522872ead5705dda158cae0b6de7ae29791990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:00 +0000
Subject: [PATCH 04/63] fix: positions slightly below zero belong to exactly
 one domain

numpy.remainder rounds a tiny negative position (any below about -1e-9 L for
float32) to BoxSize, which no domain contains: load() raised ValueError and
isprimary() was False on all ranks. float32 positions were also wrapped in
single precision by decompose() and in double precision by isprimary(), so
the two disagreed on the owner.
---
 pmesh/domain.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 65575e7..0332ac0 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -354,6 +354,16 @@ class GridND(object):
         else:
             return numpy.digitize(data, bins, right)
 
+    @staticmethod
+    def _wrap(x, boxsize):
+        """ wrap x into [0, boxsize), always in double precision.
+
+            numpy.remainder of a negative number that is tiny compared to boxsize
+            rounds to boxsize, which is outside of the last domain.
+        """
+        x = numpy.remainder(numpy.asarray(x, dtype='f8'), boxsize)
+        return numpy.where(x < boxsize, x, 0)
+
     @classmethod
     def uniform(cls, BoxSize, comm=MPI.COMM_WORLD, periodic=True):
         ndim = len(BoxSize)
@@ -449,7 +459,7 @@ class GridND(object):
                 chunk = transform(pos[s])
                 for j in range(self.ndim):
                     if periodic:
-                        tmp = numpy.remainder(chunk[:, j], self.edges[j][-1])
+                        tmp = self._wrap(chunk[:, j], self.edges[j][-1])
                     else:
                         tmp = chunk[:, j]
                     sil[j, s] = self._digitize(tmp, self.edges[j]) - 1
@@ -560,7 +570,7 @@ class GridND(object):
             s = slice(i, i + chunksize)
             chunk = transform(pos[s])[..., :self.ndim]
             if self.periodic:
-                chunk = numpy.remainder(chunk,  BoxSize)
+                chunk = self._wrap(chunk, BoxSize)
             # looping over all primary regions.
             for j in range(len(x0)):
                 r[s] += ((chunk >= x0[j]) & (chunk < x1[j])).all(axis=-1)
@@ -621,7 +631,7 @@ class GridND(object):
                     tmp = chunk[:, j]
                     if periodic:
                         boxsize = self.edges[j][-1]
-                        c = tmp % boxsize
+                        c = self._wrap(tmp, boxsize)
                         # beyond one period every domain is touched anyways.
                         width = min(smoothing[j], boxsize)
                         # keep track of the periods crossed by the left and right edges,
-- 
2.43.0


From a4abe9f521b940216954f988bf684a03c199445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:44 +0000
Subject: [PATCH 05/63] fix: GridND.uniform must not depend on the unit of
 BoxSize

The estimate of the number of domains per direction was not dimensionless:
for a small BoxSize it asked for more domains than ranks and ended up with
zero domains along the longest direction (no decomposition possible), for a
large BoxSize it degraded to slabs.
---
 pmesh/domain.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 0332ac0..d4115b2 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -370,13 +370,18 @@ class GridND(object):
 
         # compute a optimal shape where each domain is as cubical as possible
 
-        r = (1.0 * comm.size / numpy.prod(BoxSize) * min(BoxSize)) ** (1.0 / ndim)
-        shape = [ r * (BoxSize[i] / min(BoxSize)) for i in range(ndim)]
+        # use the ratios, the unit of BoxSize must not matter.
+        ratio = [ 1.0 * BoxSize[i] / min(BoxSize) for i in range(ndim)]
+        r = (1.0 * comm.size / numpy.prod(ratio)) ** (1.0 / ndim)
+        shape = [ r * ratio[i] for i in range(ndim)]
         shape = numpy.array(shape)
         imax = shape.argmax()
         shape = numpy.int32(shape)
         shape[shape < 1] = 1
         shape[imax] = 1
+        # leave at least one domain to the longest direction
+        while numpy.prod(shape) > comm.size:
+            shape[shape.argmax()] -= 1
         shape[imax] = comm.size // numpy.prod(shape)
         assert numpy.prod(shape) <= comm.size
 
-- 
2.43.0


From 70327d3d22ac6ed14f51ea5b48de5cada2c4511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:20 +0000
Subject: [PATCH 06/63] fix: scale the gradient of the tuned PCS window

The other windows multiply the derivative of the kernel with the scale
of the transform, the tuned PCS window did not.
---
 pmesh/_window_tuned_pcs.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pmesh/_window_tuned_pcs.h b/pmesh/_window_tuned_pcs.h
index eb92dca..e1eb658 100644
--- a/pmesh/_window_tuned_pcs.h
+++ b/pmesh/_window_tuned_pcs.h
@@ -29,11 +29,11 @@
                               * (2 + (XYZ[d] - IJK3[d])); \
         } else { \
             V1[d] = + 1.0 / 6.0 * (- 12 * (XYZ[d] - IJK1[d]) \
-                                   + 9 * (XYZ[d] - IJK1[d]) * (XYZ[d] - IJK1[d])); \
+                                   + 9 * (XYZ[d] - IJK1[d]) * (XYZ[d] - IJK1[d])) * painter->scale[d]; \
             V2[d] = - 1.0 / 6.0 * (+ 12 * (XYZ[d] - IJK2[d]) \
-                                   + 9 * (XYZ[d] - IJK2[d]) * (XYZ[d] - IJK2[d])); \
-            V0[d] = - 1.0 / 2.0 * (2 - (XYZ[d] - IJK0[d])) * (2 - (XYZ[d] - IJK0[d])); \
-            V3[d] = + 1.0 / 2.0 * (2 + (XYZ[d] - IJK3[d])) * (2 + (XYZ[d] - IJK3[d])); \
+                                   + 9 * (XYZ[d] - IJK2[d]) * (XYZ[d] - IJK2[d])) * painter->scale[d]; \
+            V0[d] = - 1.0 / 2.0 * (2 - (XYZ[d] - IJK0[d])) * (2 - (XYZ[d] - IJK0[d])) * painter->scale[d]; \
+            V3[d] = + 1.0 / 2.0 * (2 + (XYZ[d] - IJK3[d])) * (2 + (XYZ[d] - IJK3[d])) * painter->scale[d]; \
         } \
     } \
 \
-- 
2.43.0


From 50414cf084b1bf9c30a821184482ffcfae74e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 07/63] fix: tuned windows must not take the unscaled path for
 a scaled support

With hsml such that the scaled support rounds up to the native support,
the tuned windows ignored hsml, unlike the generic ones.
---
 pmesh/_window_tuned_cic.h | 2 +-
 pmesh/_window_tuned_nnb.h | 2 +-
 pmesh/_window_tuned_pcs.h | 2 +-
 pmesh/_window_tuned_tsc.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pmesh/_window_tuned_cic.h b/pmesh/_window_tuned_cic.h
index de10378..e448762 100644
--- a/pmesh/_window_tuned_cic.h
+++ b/pmesh/_window_tuned_cic.h
@@ -135,7 +135,7 @@ mkname(_cic_tuned_readout1) (PMeshPainter * painter, double pos[], double hsml)
 static int
 mkname(_getfastmethod_cic) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
-    if(window->support != 2) return 0;
+    if(window->support != 2 || window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_cic_tuned_paint1); \
diff --git a/pmesh/_window_tuned_nnb.h b/pmesh/_window_tuned_nnb.h
index 8b3522e..643f097 100644
--- a/pmesh/_window_tuned_nnb.h
+++ b/pmesh/_window_tuned_nnb.h
@@ -103,7 +103,7 @@ mkname(_nnb_tuned_readout1) (PMeshPainter * painter, double pos[], double hsml)
 static int
 mkname(_getfastmethod_nnb) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
-    if(window->support != 1) return 0;
+    if(window->support != 1 || window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_nnb_tuned_paint1); \
diff --git a/pmesh/_window_tuned_pcs.h b/pmesh/_window_tuned_pcs.h
index e1eb658..7aab439 100644
--- a/pmesh/_window_tuned_pcs.h
+++ b/pmesh/_window_tuned_pcs.h
@@ -299,7 +299,7 @@ mkname(_pcs_tuned_readout1) (PMeshPainter * painter, double pos[], double hsml)
 static int
 mkname(_getfastmethod_pcs) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
-    if(window->support != 4) return 0;
+    if(window->support != 4 || window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_pcs_tuned_paint1); \
diff --git a/pmesh/_window_tuned_tsc.h b/pmesh/_window_tuned_tsc.h
index f70731b..2b60346 100644
--- a/pmesh/_window_tuned_tsc.h
+++ b/pmesh/_window_tuned_tsc.h
@@ -188,7 +188,7 @@ mkname(_tsc_tuned_readout1) (PMeshPainter * painter, double pos[], double hsml)
 static int
 mkname(_getfastmethod_tsc) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
-    if(window->support != 3) return 0;
+    if(window->support != 3 || window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_tsc_tuned_paint1); \
-- 
2.43.0


From c67b342e4b8574bc3788554424feed7419ec72d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:21 +0000
Subject: [PATCH 08/63] fix: invariant index of modes on odd meshes

- Nmesh // 2 rounds away from zero for an odd Nmesh: a mode just outside
  the mesh was given the number of the largest positive mode.
---
 pmesh/_invariant.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pmesh/_invariant.pyx b/pmesh/_invariant.pyx
index f4f209d..d95566b 100644
--- a/pmesh/_invariant.pyx
+++ b/pmesh/_invariant.pyx
@@ -40,10 +40,11 @@ def get_index(inttype [:, :] x, ptrdiff_t [:] Nmesh, compressed, maxlength=None)
                 # The nyquist frequency has a confusion -- it can be either.
                 # we always map it to the positive.
                 # PMesh and FFT uses a negative nyquist freq; correct for it here.
-                if xi[d] == - Nmesh[d] // 2:
+                # An odd mesh has no nyquist frequency.
+                if 2 * xi[d] == - Nmesh[d]:
                     xi[d] = Nmesh[d] // 2
 
-                if xi[d] > Nmesh[d] // 2 or xi[d] < -Nmesh[d] // 2:
+                if 2 * xi[d] > Nmesh[d] or 2 * xi[d] < -Nmesh[d]:
                     bad = 1
             if bad:
                 r[i] = -1
-- 
2.43.0


From 9390c8436b449b437e2f52bacef0e95256073e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 09/63] fix: white noise seeds of non-cubic and odd meshes

The columns were seeded assuming an even mesh with equal first two axes.
Otherwise columns went without a seed, so that their modes were
identical, and conjugate columns could receive different seeds, so that
the field was not hermitian. Even meshes with equal axes are unchanged.
---
 pmesh/_whitenoise_generics.h | 18 +++++++++++-------
 pmesh/_whitenoise_imp.c      |  8 ++++++++
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 8e3eac1..119fe48 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -73,23 +73,27 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_ranlxd1);
     gsl_rng_set(rng, seed);
 
-    for(i = 0; i < self->Nmesh[0] / 2; i++) {
+    /* frequencies of the longer axis, for an odd axis there is one more positive than in half */
+    int nhalf = self->Nmesh[0] > self->Nmesh[1] ? self->Nmesh[0] : self->Nmesh[1];
+    nhalf = (nhalf + 1) / 2;
+
+    for(i = 0; i < nhalf; i++) {
         for(j = 0; j < i; j++)
             SETSEED(self, i, j, rng);
         for(j = 0; j < i + 1; j++)
             SETSEED(self, j, i, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, self->Nmesh[0] - 1 - i, j, rng);
+            SETSEED(self, -1 - i, j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[1] - 1 - j, i, rng);
+            SETSEED(self, -1 - j, i, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, i, self->Nmesh[1] - 1 - j, rng);
+            SETSEED(self, i, -1 - j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, j, self->Nmesh[0] - 1 - i, rng);
+            SETSEED(self, j, -1 - i, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, self->Nmesh[0] - 1 - i, self->Nmesh[1] - 1 - j, rng);
+            SETSEED(self, -1 - i, -1 - j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[1] - 1 - j, self->Nmesh[0] - 1 - i, rng);
+            SETSEED(self, -1 - j, -1 - i, rng);
     }
     gsl_rng_free(rng);
 
diff --git a/pmesh/_whitenoise_imp.c b/pmesh/_whitenoise_imp.c
index c47324b..caf6eab 100644
--- a/pmesh/_whitenoise_imp.c
+++ b/pmesh/_whitenoise_imp.c
@@ -31,6 +31,14 @@ SETSEED(PMeshWhiteNoiseGenerator * self, int i, int j, gsl_rng * rng)
 { 
     unsigned int seed = 0x7fffffff * gsl_rng_uniform(rng); 
 
+    /* i and j are signed frequencies. The seed is always drawn, such that the sequence does
+     * not depend on the shape of the mesh, but a column outside of the mesh has no seed. */
+    if(2 * i >= self->Nmesh[0] + (self->Nmesh[0] & 1) || 2 * i < - self->Nmesh[0]) return;
+    if(2 * j >= self->Nmesh[1] + (self->Nmesh[1] & 1) || 2 * j < - self->Nmesh[1]) return;
+
+    if(i < 0) i += self->Nmesh[0];
+    if(j < 0) j += self->Nmesh[1];
+
     int ii[2] = {i, (self->Nmesh[0] - i) % self->Nmesh[0]};
     int jj[2] = {j, (self->Nmesh[1] - j) % self->Nmesh[1]};
     int d1, d2;
-- 
2.43.0


From 15ebfe89efcb70f4a745dca25cd9540120819097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 10/63] fix: an odd axis of the white noise has no
 self-conjugate Nyquist plane

---
 pmesh/_whitenoise_generics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 119fe48..e32cd28 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -153,7 +153,7 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                 gsl_rng_set(this_rng, seed_this);
 
                 for(k = 0; k <= self->Nmesh[2] / 2; k ++) {
-                    int use_conj = (d1 != 0 || d2 != 0) && (k == 0 || k == self->Nmesh[2] / 2);
+                    int use_conj = (d1 != 0 || d2 != 0) && (k == 0 || 2 * k == self->Nmesh[2]);
 
                     double ampl, phase;
                     if(use_conj) {
-- 
2.43.0


From f6134a1c77a467c985af1f0d8cb672c489ad4624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:56 +0000
Subject: [PATCH 11/63] fix: fill the negative modes of a sub-box of the white
 noise

Whether a mode with negative frequency along the last axis lies in the
requested box was decided with the position of its positive partner.
---
 pmesh/_whitenoise_generics.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index e32cd28..850c988 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -167,6 +167,9 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                     }
 
                     ptrdiff_t iabs[3] = {i, j, k};
+                    if(sign == -1) {
+                        iabs[2] = self->Nmesh[2] - k;
+                    }
 
                     /* mode is not there, skip it */
                     if(!mkname(_has_mode)(self, iabs)) {
@@ -197,7 +200,6 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                     */
 
                     if(sign == -1) {
-                        iabs[2] = self->Nmesh[2] - k;
                         im = - im;
                     }
 
-- 
2.43.0


From ac6386dc6e794f2b243f4193f52b82e4e7b4c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:28 +0000
Subject: [PATCH 12/63] fix: self-conjugate modes of the white noise have unit
 power

The imaginary part of these modes is dropped, so that they carried half
of the power of the others (and of the 1d and 2d white noise).
---
 pmesh/_whitenoise_generics.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 850c988..c4cb32d 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -212,6 +212,8 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                        (self->Nmesh[2] - iabs[2]) % self->Nmesh[2] == iabs[2]) {
                         /* The mode is self conjuguate, thus imaginary mode must be zero */
                         im = 0;
+                        /* all of the power of the mode is in the real part */
+                        re *= M_SQRT2;
                         if(self->unitary)  /* real part must be 1 then*/
                             re = 1;
                     }
-- 
2.43.0


From 43d9371dce3be34f4a36ba81120a9caeae7f4808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:38 +0000
Subject: [PATCH 13/63] fix: invariant index with a maxlength of zero

---
 pmesh/_invariant_imp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/_invariant_imp.c b/pmesh/_invariant_imp.c
index af08965..3eaa31c 100644
--- a/pmesh/_invariant_imp.c
+++ b/pmesh/_invariant_imp.c
@@ -67,7 +67,7 @@ ptrdiff_t pmesh_get_invariant_index(
 
     ptrdiff_t shell = absmax(ndim, x);
     /* (0, 0, 0....) */
-    if (shell == 0) return 0;
+    if (shell == 0) return max_length == 0 ? -1 : 0;
 
     ptrdiff_t side = shell * 2 + 1; 
 
-- 
2.43.0


From 1e34e0dd63ded6c56dd80d8ceea457692ff16076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:28 +0000
Subject: [PATCH 14/63] fix: assign the domains of ranks with empty slabs to
 distinct ranks

---
 pmesh/pm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 1ebc8c7..4abff2a 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1449,7 +1449,8 @@ class ParticleMesh(object):
         edges = partition.i_edges
         shape = numpy.array([len(g) - 1 for g in edges], dtype='int32')
         size = numpy.prod(shape)
-        ilocal = tuple(numpy.flatnonzero(iedges == istart)[0] for istart, iedges in zip(partition.local_i_start, partition.i_edges))
+        # the location in the process mesh identifies the domain even if it is empty
+        ilocal = tuple(procmesh.this) + (0,) * (len(shape) - len(procmesh.this))
         ilocal = numpy.ravel_multi_index(ilocal, shape, mode='raise', order='C')
         ilocals = numpy.array(self.comm.allgather(ilocal))
         DomainAssign = numpy.empty(size, dtype='int32')
-- 
2.43.0


From 74a08483b422122acb4764b81cca2761d57f7b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:34 +0000
Subject: [PATCH 15/63] fix: sign of the central coordinate along an odd axis

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 4abff2a..8141584 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1188,7 +1188,7 @@ def _init_i_coords(partition, Nmesh, BoxSize, dtype):
 
         ri = numpy.arange(t[d], dtype=dtype) + partition.local_i_start[d]
 
-        ri[ri >= Nmesh[d] // 2] -= Nmesh[d]
+        ri[ri >= (Nmesh[d] + 1) // 2] -= Nmesh[d]
 
         xi = ri * BoxSize[d] / Nmesh[d]
 
@@ -1212,7 +1212,7 @@ def _init_o_coords(partition, Nmesh, BoxSize, dtype):
 
         wi = numpy.arange(s[d], dtype=dtype) + partition.local_o_start[d]
 
-        wi[wi >= Nmesh[d] // 2] -= Nmesh[d]
+        wi[wi >= (Nmesh[d] + 1) // 2] -= Nmesh[d]
 
         wi *= (2 * numpy.pi / Nmesh[d])
         ki = wi * Nmesh[d] / BoxSize[d]
-- 
2.43.0


From d2917739aee6cf0133629a5b4a853604e9acf81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:34 +0000
Subject: [PATCH 16/63] fix: an odd axis has no self-conjugate Nyquist plane in
 reductions

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 8141584..b91e94e 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -913,7 +913,7 @@ class BaseComplexField(Field):
         y = y.copy()
         # if a conjugate is not stored and not self, increase the weight
         # because we shall add it.
-        mask = (i[-1] != 0) & (i[-1] != self.Nmesh[-1] // 2)
+        mask = (self.Nmesh[-1] - i[-1]) % self.Nmesh[-1] != i[-1]
         y += mask * y
         return y
 
-- 
2.43.0


From 8db29fe29824f31cf0ae4dcbc728f2e5d64b209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:34 +0000
Subject: [PATCH 17/63] fix: dot product of complex configuration-space fields
 and of arrays

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index b91e94e..266b237 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -212,7 +212,7 @@ class Field(NDArrayLike):
             if not isinstance(other, _gettype(self)):
                 raise TypeError("type of two operands of cdot must be the same type")
         else:
-            assert all(numpy.shape(other) == self.shape)
+            assert numpy.shape(other) == self.shape
 
     def copy(self):
         return self.pm.create(_gettype(self), value=self.value)
@@ -896,7 +896,7 @@ class RealField(Field):
 
     def cdot(self, other):
         self._check_compatible(other)
-        return self.pm.comm.allreduce(numpy.sum(self[...] * other[...]))
+        return self.pm.comm.allreduce(numpy.sum(self[...] * numpy.conj(other[...])))
 
     def cnorm(self):
         return self.cdot(self)
-- 
2.43.0


From 0b9d7f71f1cc2963af7db5034c4d256d486b53af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:55 +0000
Subject: [PATCH 18/63] fix: in-place operators and ufuncs with out return the
 output itself

---
 pmesh/pm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 266b237..c0e5f52 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -186,6 +186,9 @@ class Field(NDArrayLike):
                 for x in out)
 
         result = getattr(ufunc, method)(*inputs, **kwargs)
+        if out:
+            # the result is already in out; do not wrap a copy of it.
+            return out if type(result) is tuple else out[0]
         def cast(result):
             # booleans, cannot be reasonable Field objects
             # just return the ndarray
-- 
2.43.0


From 647363589ec634a3ad61b55cbfa14842779ef4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:46 +0000
Subject: [PATCH 19/63] fix: readout_jvp must use the gradient of the window it
 is given

---
 pmesh/pm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index c0e5f52..c21b5e0 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -853,11 +853,13 @@ class RealField(Field):
         jvp = numpy.zeros(len(pos))
 
         if v_pos is not None:
+            if gradient is not None:
+                raise ValueError("gradient of gradient is not yet supported")
             for d in range(self.ndim):
                 jvp[...] += self.readout(pos, resampler=resampler, transform=transform, gradient=d, layout=layout) * v_pos[..., d]
 
         if v_self is not None:
-            jvp[...] += v_self.readout(pos, resampler=resampler, transform=transform, gradient=None, layout=layout)
+            jvp[...] += v_self.readout(pos, resampler=resampler, transform=transform, gradient=gradient, layout=layout)
 
         return jvp
 
-- 
2.43.0


From af4c82e3650ef13482b497cf121bc9be4be7076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:46 +0000
Subject: [PATCH 20/63] fix: preview keeps the order of the axes when none is
 removed

---
 pmesh/pm.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index c21b5e0..0db0025 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -606,13 +606,10 @@ class Field(NDArrayLike):
         # TODO: allow slicing along projected directions.
         out = out[...]
 
-        if len(axes) != self.ndim:
-            removeaxes = set(range(self.ndim)) - set(axes)
-            all_axes = list(axes) + list(removeaxes)
-            removeaxes = tuple(range(len(all_axes) - len(removeaxes), len(all_axes)))
-            result[local_slice] += out.transpose(all_axes).sum(axis=removeaxes)
-        else:
-            result[local_slice] += out
+        removeaxes = set(range(self.ndim)) - set(axes)
+        all_axes = list(axes) + list(removeaxes)
+        removeaxes = tuple(range(len(all_axes) - len(removeaxes), len(all_axes)))
+        result[local_slice] += out.transpose(all_axes).sum(axis=removeaxes)
 
         self.pm.comm.Allreduce(MPI.IN_PLACE, result)
         return result
-- 
2.43.0


From 717a6ea1bfa56495d59732975ece0db0839dce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:54 +0000
Subject: [PATCH 21/63] fix: resample the modes of odd meshes

---
 pmesh/pm.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 0db0025..9c3f71d 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -534,13 +534,13 @@ class Field(NDArrayLike):
             # FIXME: the nyquist is messy due to hermitian constraints
             # let's do not touch them till we know they are important.
             mask = functools.reduce(numpy.bitwise_or,
-                 [ ii == n // 2
+                 [ 2 * ii == n
                    for ii, n in zip(i, complex.Nmesh)])
             slab[mask] = 0
 
             # also remove the nyquist of the input
             mask = functools.reduce(numpy.bitwise_or,
-                 [ ii == n // 2
+                 [ 2 * ii == n
                    for ii, n in zip(i, self.Nmesh)])
             slab[mask] = 0
 
@@ -1140,9 +1140,10 @@ def reindex(Nsrc, Ndest):
         >>> array([ 0,  1,  2, -1, -1, -1,  -1,  3])
 
     """
-    reindex = numpy.arange(Ndest)
-    reindex[Ndest // 2 + 1:] = numpy.arange(Nsrc - Ndest // 2 + 1, Nsrc, 1)
-    reindex[Nsrc // 2 + 1: Ndest -Nsrc //2 + 1] = -1
+    k = numpy.arange(Ndest)
+    # signed frequency, positive at the Nyquist of an even mesh
+    k[Ndest // 2 + 1:] -= Ndest
+    reindex = numpy.where((-Nsrc < 2 * k) & (2 * k <= Nsrc), k % Nsrc, -1)
     return reindex
 
 def exchange(layout, value):
-- 
2.43.0


From 48c7a09f205db9084e1a9b394c3aed9b36336b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:55 +0000
Subject: [PATCH 22/63] fix: resample to an equal Nmesh on another ParticleMesh

---
 pmesh/pm.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 9c3f71d..0c88655 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -491,10 +491,6 @@ class Field(NDArrayLike):
         """
         assert isinstance(out, Field)
 
-        if all(out.Nmesh == self.Nmesh):
-            # no resampling needed. Just do Fourier transforms.
-            self.cast(type=_gettype(out), out=out)
-
         self = self.cast(type=TransposedComplexField)
 
         complex = out.pm.create(type=TransposedComplexField, base=out._base, value=0)
-- 
2.43.0


From a001b72df566ca5a12367c684e05b253902ce950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:55 +0000
Subject: [PATCH 23/63] fix: resample to an untransposed complex field

---
 pmesh/pm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 0c88655..0bfdbe4 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -493,7 +493,9 @@ class Field(NDArrayLike):
 
         self = self.cast(type=TransposedComplexField)
 
-        complex = out.pm.create(type=TransposedComplexField, base=out._base, value=0)
+        # an untransposed output is distributed differently
+        type = _gettype(out) if isinstance(out, BaseComplexField) else TransposedComplexField
+        complex = out.pm.create(type=type, base=out._base, value=0)
 
         tmp = numpy.empty_like(self.value)
 
-- 
2.43.0


From 682702d9f2e11fbfee31be3811e5c45422cf036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:55 +0000
Subject: [PATCH 24/63] fix: resample keeps the imaginary part of the zero mode
 of a complex mesh

---
 pmesh/pm.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 0bfdbe4..64a77fb 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -521,12 +521,13 @@ class Field(NDArrayLike):
         # fill in the value
         complex[mask] = data
 
-        # ensure the down sample is real
         for i, slab in zip(complex.slabs.i, complex.slabs):
-            mask = functools.reduce(numpy.bitwise_and,
-                 [(n - ii) % n == ii
-                    for ii, n in zip(i, complex.Nmesh)])
-            slab.imag[mask] = 0
+            if complex.compressed:
+                # ensure the down sample is real
+                mask = functools.reduce(numpy.bitwise_and,
+                     [(n - ii) % n == ii
+                        for ii, n in zip(i, complex.Nmesh)])
+                slab.imag[mask] = 0
 
             # remove the nyquist of the output
             # FIXME: the nyquist is messy due to hermitian constraints
-- 
2.43.0


From 766fac485f864f3b716143b085c2379d8420f6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:39 +0000
Subject: [PATCH 25/63] fix: resample to a smaller mesh must not drop the index
 of the input Nyquist

---
 pmesh/pm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 64a77fb..7657035 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -537,10 +537,11 @@ class Field(NDArrayLike):
                    for ii, n in zip(i, complex.Nmesh)])
             slab[mask] = 0
 
-            # also remove the nyquist of the input
+            # also remove the nyquist of the input, if the output has it;
+            # on a smaller mesh that index is another mode.
             mask = functools.reduce(numpy.bitwise_or,
-                 [ 2 * ii == n
-                   for ii, n in zip(i, self.Nmesh)])
+                 [ (2 * ii == n) & (n <= nout)
+                   for ii, n, nout in zip(i, self.Nmesh, complex.Nmesh)])
             slab[mask] = 0
 
         if isinstance(out, RealField):
-- 
2.43.0


From 0d3b2dc0544e95f99e0fd058aca17106933f5a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:36 +0000
Subject: [PATCH 26/63] fix: upsample with windows wider than the hard-coded
 buffer region

---
 pmesh/pm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 7657035..bb86d44 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1972,7 +1972,6 @@ class ParticleMesh(object):
                     period=source.Nmesh)
 
         layout = source.pm.decompose(q, smoothing=resampler, transform=transform)
-        layout = source.pm.decompose(q, smoothing=1.6, transform=transform)
 
         f = source.readout(q, resampler=resampler, layout=layout, transform=transform)
 
-- 
2.43.0


From f49dd9a7118aeebd9c578082dfce3c7f255e414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 27/63] fix: invariant index of modes beyond the range of an
 int

abs() of a ptrdiff_t truncates it, and 2 * x of a huge mode overflows.
---
 pmesh/_invariant.pyx   | 8 +++++---
 pmesh/_invariant_imp.c | 8 ++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pmesh/_invariant.pyx b/pmesh/_invariant.pyx
index d95566b..d9aef2b 100644
--- a/pmesh/_invariant.pyx
+++ b/pmesh/_invariant.pyx
@@ -31,6 +31,7 @@ def get_index(inttype [:, :] x, ptrdiff_t [:] Nmesh, compressed, maxlength=None)
     if compressed: # only compress the last axis
         cmask = 1 << (x.shape[1] - 1)
     cdef int bad
+    cdef ptrdiff_t half
     with nogil:
         for i in range(x.shape[0]):
             bad = 0
@@ -41,10 +42,11 @@ def get_index(inttype [:, :] x, ptrdiff_t [:] Nmesh, compressed, maxlength=None)
                 # we always map it to the positive.
                 # PMesh and FFT uses a negative nyquist freq; correct for it here.
                 # An odd mesh has no nyquist frequency.
-                if 2 * xi[d] == - Nmesh[d]:
-                    xi[d] = Nmesh[d] // 2
+                half = Nmesh[d] // 2
+                if Nmesh[d] % 2 == 0 and xi[d] == - half:
+                    xi[d] = half
 
-                if 2 * xi[d] > Nmesh[d] or 2 * xi[d] < -Nmesh[d]:
+                if xi[d] > half or xi[d] < - half:
                     bad = 1
             if bad:
                 r[i] = -1
diff --git a/pmesh/_invariant_imp.c b/pmesh/_invariant_imp.c
index 3eaa31c..75e143c 100644
--- a/pmesh/_invariant_imp.c
+++ b/pmesh/_invariant_imp.c
@@ -32,10 +32,10 @@ absmax(int ndim, const ptrdiff_t x[])
 {
     int d;
     if(ndim == 0) return 0;
-    int shell = abs(x[0]);
+    ptrdiff_t shell = llabs(x[0]);
     for(d = 0; d < ndim; d ++) {
-        if(abs(x[d]) > shell) {
-            shell = abs(x[d]);
+        if(llabs(x[d]) > shell) {
+            shell = llabs(x[d]);
         }
     }
     return shell;
@@ -139,7 +139,7 @@ ptrdiff_t pmesh_get_invariant_index(
     int ndim1;
 
     for(ndim1 = 0, d = 0; d < ndim; d ++) {
-        if(abs(x[d]) == shell) {
+        if(llabs(x[d]) == shell) {
             icapset_x |= (1<<d);
             icap_x |= (x[d] < 0) * (1<<d);
         } else {
-- 
2.43.0


From 63ed2e81baecfe5b1535c4c9f6982c9882545ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 28/63] fix: white noise refuses complex types it cannot fill

Extended precision or byte swapped meshes were filled as if they were complex64.
---
 pmesh/_whitenoise.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pmesh/_whitenoise.pyx b/pmesh/_whitenoise.pyx
index 789d70b..a44e170 100644
--- a/pmesh/_whitenoise.pyx
+++ b/pmesh/_whitenoise.pyx
@@ -25,6 +25,8 @@ cdef extern from "_whitenoise_imp.h":
 
 def generate(numpy.ndarray complex, ptrdiff_t [:] start, ptrdiff_t [:] Nmesh, unsigned int seed, int unitary):
     assert complex.dtype.kind == 'c'
+    if complex.dtype.itemsize not in (8, 16) or not complex.dtype.isnative:
+        raise TypeError("mesh of type %s is not supported" % complex.dtype)
     assert complex.ndim == 3
 
     cdef PMeshWhiteNoiseGenerator generator[1]
-- 
2.43.0


From 860d527602d54da13df1d3f9c26cc3d310369c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 29/63] fix: painting refuses meshes that are not native
 float32 or float64

They were painted and read as if they were float32, out of their bounds for float16.
---
 pmesh/_window.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pmesh/_window.pyx b/pmesh/_window.pyx
index 0435992..486531d 100644
--- a/pmesh/_window.pyx
+++ b/pmesh/_window.pyx
@@ -133,6 +133,8 @@ cdef class ResampleWindow(object):
         cdef int i
 
         assert real.dtype.kind == 'f'
+        if real.dtype.itemsize not in (4, 8) or not real.dtype.isnative:
+            raise TypeError("mesh of type %s is not supported" % real.dtype)
 
         cdef PMeshPainter painter[1]
 
@@ -174,6 +176,8 @@ cdef class ResampleWindow(object):
         cdef int i
 
         assert real.dtype.kind == 'f'
+        if real.dtype.itemsize not in (4, 8) or not real.dtype.isnative:
+            raise TypeError("mesh of type %s is not supported" % real.dtype)
 
         cdef PMeshPainter painter[1]
 
-- 
2.43.0


From 0c5679822cfa70e00931864ce84a32eb294bffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 30/63] fix: tiny, huge and not finite smoothing lengths

The kernels were looked up out of their tables for tiny smoothing lengths, the
stack overflowed for large ones, and the conversion of others to an int is undefined.
---
 pmesh/_window.pyx        |  4 ++++
 pmesh/_window_generics.h | 20 +++++++++++++++++---
 pmesh/_window_imp.c      | 12 ++++++------
 pmesh/_window_imp.h      |  1 -
 4 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/pmesh/_window.pyx b/pmesh/_window.pyx
index 486531d..340ccb0 100644
--- a/pmesh/_window.pyx
+++ b/pmesh/_window.pyx
@@ -162,6 +162,8 @@ cdef class ResampleWindow(object):
             m = mass[i]
             if hsml is not None:
                 h = hsml[i]
+                if not abs(h * painter[0].support) < (1 << 24):
+                    raise ValueError("smoothing length of %g is not supported" % h)
             else:
                 h = 1.0
             pmesh_painter_paint(painter, x, m, h)
@@ -204,6 +206,8 @@ cdef class ResampleWindow(object):
                 x[d] = pos[i, d]
             if hsml is not None:
                 h = hsml[i]
+                if not abs(h * painter[0].support) < (1 << 24):
+                    raise ValueError("smoothing length of %g is not supported" % h)
             else:
                 h = 1.0
             out[i] = pmesh_painter_readout(painter, x, h)
diff --git a/pmesh/_window_generics.h b/pmesh/_window_generics.h
index 8cb8063..aeb8ed4 100644
--- a/pmesh/_window_generics.h
+++ b/pmesh/_window_generics.h
@@ -20,8 +20,14 @@ mkname(_generic_paint) (PMeshPainter * painter, double pos[], double weight, dou
 
     int ipos[painter->ndim];
 
-    /* the max support is 32 */
-    double k[painter->ndim * window->support];
+    /* the stack holds the usual supports */
+    double kstack[1024];
+    double * k = kstack;
+    size_t nk = (size_t) painter->ndim * window->support;
+    if(UNLIKELY(nk > 1024)) {
+        k = malloc(sizeof(double) * nk);
+        if(k == NULL) abort();
+    }
 
     char * canvas = (char*) painter->canvas;
 
@@ -69,6 +75,7 @@ mkname(_generic_paint) (PMeshPainter * painter, double pos[], double weight, dou
             }
         }
     }
+    if(k != kstack) free(k);
     return;
 }
 
@@ -90,7 +97,13 @@ mkname(_generic_readout) (PMeshPainter * painter, double pos[], double hsml)
 
     double value = 0;
     int ipos[painter->ndim];
-    double k[painter->ndim * window->support];
+    double kstack[1024];
+    double * k = kstack;
+    size_t nk = (size_t) painter->ndim * window->support;
+    if(UNLIKELY(nk > 1024)) {
+        k = malloc(sizeof(double) * nk);
+        if(k == NULL) abort();
+    }
 
     char * canvas = (char*) painter->canvas;
 
@@ -138,6 +151,7 @@ outside:
             }
         }
     }
+    if(k != kstack) free(k);
     return value;
 }
 
diff --git a/pmesh/_window_imp.c b/pmesh/_window_imp.c
index af5ab64..4a753a1 100644
--- a/pmesh/_window_imp.c
+++ b/pmesh/_window_imp.c
@@ -3,6 +3,7 @@
 
 #include <stddef.h>
 #include <stdint.h>
+#include <stdlib.h>
 #include <math.h>
 #include "_window_imp.h"
 
@@ -37,12 +38,6 @@ pmesh_window_info_init(PMeshWindowInfo * info, int ndim, int nativesupport, doub
 
     info->shift = support / 2.0 - info->support / 2;
 
-    int nmax = 1;
-    int d;
-    for(d = 0; d < ndim; d++) {
-        nmax *= (info->support);
-    }
-    info->Npoints = nmax;
     info->vfactor = nativesupport / (1. * support);
 }
 
@@ -61,6 +56,11 @@ _fill_k(PMeshPainter * painter, PMeshWindowInfo * window, double pos[], int ipos
         int i;
         for(i = 0; i < window->support; i ++) {
             double x = (dx - i) * window->vfactor;
+            /* far outside of every window; a kernel may look it up in a table with an int */
+            if(!(fabs(x) < 1e6)) {
+                kd[i] = 0;
+                continue;
+            }
             if(painter->order[d] == 0) {
                 kd[i] = painter->kernel(x) * window->vfactor;
             } else {
diff --git a/pmesh/_window_imp.h b/pmesh/_window_imp.h
index ef03b90..a4fa7e3 100644
--- a/pmesh/_window_imp.h
+++ b/pmesh/_window_imp.h
@@ -32,7 +32,6 @@ typedef struct PMeshWindowInfo {
     double vfactor; /* nativesupport / support */
     double shift;
     int left; /* offset to start the kernel, (support - 1) / 2*/
-    int Npoints; /* (support) ** ndim */
 } PMeshWindowInfo;
 
 typedef struct PMeshPainter PMeshPainter;
-- 
2.43.0


From 45d2db9391dc8a937138f6ead76699bf8d4c1c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 31/63] fix: positions too far away for an integer index of a
 cell

The conversion of such a position to an int is undefined. Bring it home on periodic
axes; otherwise, or if it is not finite, it is on no cell.
---
 pmesh/_window_imp.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/pmesh/_window_imp.c b/pmesh/_window_imp.c
index 4a753a1..0d1a315 100644
--- a/pmesh/_window_imp.c
+++ b/pmesh/_window_imp.c
@@ -458,16 +458,41 @@ pmesh_painter_init(PMeshPainter * painter)
 
 }
 
+/* The index of a cell is an int. Bring a position too far away for that back to the first period.
+ *
+ * Returns 0 if the position is on no cell of the mesh. */
+static int
+_bring_home(PMeshPainter * painter, const double pos[], double newpos[])
+{
+    const double far = 1 << 29;
+    int d;
+    for(d = 0; d < painter->ndim; d ++) {
+        double gpos = pos[d] * painter->scale[d] + painter->translate[d];
+        newpos[d] = pos[d];
+        if(fabs(gpos) < far) continue;
+        /* note that a nan is not less than far */
+        if(!isfinite(gpos) || painter->Nmesh[d] <= 0) return 0;
+        newpos[d] = (fmod(gpos, painter->Nmesh[d]) - painter->translate[d]) / painter->scale[d];
+        gpos = newpos[d] * painter->scale[d] + painter->translate[d];
+        if(!(fabs(gpos) < far)) return 0;
+    }
+    return 1;
+}
+
 void
 pmesh_painter_paint(PMeshPainter * painter, double pos[], double weight, double hsml)
 {
-    painter->paint(painter, pos, weight, hsml);
+    double newpos[32];
+    if(!_bring_home(painter, pos, newpos)) return;
+    painter->paint(painter, newpos, weight, hsml);
 }
 
 double
 pmesh_painter_readout(PMeshPainter * painter, double pos[], double hsml)
 {
-    return painter->readout(painter, pos, hsml);
+    double newpos[32];
+    if(!_bring_home(painter, pos, newpos)) return 0;
+    return painter->readout(painter, newpos, hsml);
 }
 
 double
-- 
2.43.0


From 07dc9fa90e2d44cbd461d816157cf1ac5c08174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:11 +0000
Subject: [PATCH 32/63] fix: more domains along an axis than an int16 can count

The index overflowed, and the decomposition read out of its arrays.
---
 pmesh/_domain.pyx | 4 ++--
 pmesh/domain.py   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pmesh/_domain.pyx b/pmesh/_domain.pyx
index f3e6727..00c9f9c 100644
--- a/pmesh/_domain.pyx
+++ b/pmesh/_domain.pyx
@@ -10,8 +10,8 @@ def gridnd_fill(
         int mode,
         int [::1] counts,
         int [:] adims,
-        short int [:, ::1] sil,
-        short int [:, ::1] sir,
+        int [:, ::1] sil,
+        int [:, ::1] sir,
         int periodic,
         short int [::1] domain_is_degenerate,
         int [::1] DomainAssign,
diff --git a/pmesh/domain.py b/pmesh/domain.py
index d4115b2..351e4ba 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -457,7 +457,7 @@ class GridND(object):
         periodic = self.periodic
 
         if Npoint != 0:
-            sil = numpy.empty((self.ndim, Npoint), dtype='i2', order='C')
+            sil = numpy.empty((self.ndim, Npoint), dtype='i4', order='C')
             chunksize = 1024 * 48
             for i in range(0, Npoint, chunksize):
                 s = slice(i, i + chunksize)
@@ -626,8 +626,8 @@ class GridND(object):
         periodic = self.periodic
 
         if Npoint != 0:
-            sil = numpy.empty((self.ndim, Npoint), dtype='i2', order='C')
-            sir = numpy.empty((self.ndim, Npoint), dtype='i2', order='C')
+            sil = numpy.empty((self.ndim, Npoint), dtype='i4', order='C')
+            sir = numpy.empty((self.ndim, Npoint), dtype='i4', order='C')
             chunksize = 1024 * 48
             for i in range(0, Npoint, chunksize):
                 s = slice(i, i + chunksize)
-- 
2.43.0


From a4e9443401724b4a38f2329027972557a65c94c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:06 +0000
Subject: [PATCH 33/63] fix: data of the wrong shape on one rank hung the other
 ranks

exchange, gather, decompose and load raised on the ranks with the bad data only, the
others kept waiting for them. An unknown mode of gather was not noticed on
ranks without data.
---
 pmesh/domain.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 351e4ba..3323d4c 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -50,9 +50,15 @@ def bincountv(x, weights, minlength=None, dtype=None, out=None):
 def promote(data, comm):
     data = numpy.asarray(data)
     dtype_root = comm.bcast(data.dtype)
-    data = data.astype(dtype_root)
     shape_root = comm.bcast(data.shape)
-    if shape_root[1:] != data.shape[1:]:
+    good = data.ndim > 0 and shape_root[1:] == data.shape[1:]
+    if good:
+        try:
+            data = data.astype(dtype_root)
+        except (TypeError, ValueError):
+            good = False
+    # all ranks must raise, or those with good data wait for the others forever.
+    if not all(comm.allgather(good)):
         raise ValueError('the shape of the data does not match across ranks.')
     return data
 
@@ -159,7 +165,13 @@ class Layout(object):
 
         """
         if pack:
-            data = pack_arrays(args)
+            try:
+                data = pack_arrays(args)
+            except (ValueError, IndexError):
+                data = None
+            # all ranks must raise, or those with good data wait for the others forever.
+            if any(self.comm.allgather(data is None)):
+                raise ValueError('the shape of the data does not match across different columns.')
             newdata = self._exchange(data)
             r = tuple([newdata[name] for name in newdata.dtype.names])
         else:
@@ -234,6 +246,9 @@ class Layout(object):
             all gathered particles (corresponding to self.indices) are returned.
 
         """
+        if not isinstance(mode, numpy.ufunc) and mode not in ['sum', 'any', 'mean', 'all', 'local']:
+            raise NotImplementedError("unknown mode of gather : %s" % str(mode))
+
         # lets check the data type first
         data = promote(data, self.comm)
 
@@ -323,7 +338,6 @@ class Layout(object):
                 out = numpy.zeros(self.sendlength, dtype=dtype)
             out[self.indices] = recvbuffer
             return out
-        raise NotImplementedError
 
 class GridND(object):
     """
@@ -449,7 +463,9 @@ class GridND(object):
 
         pos = numpy.asarray(pos)
 
-        assert pos.shape[1] >= self.ndim
+        # all ranks must raise, or those with good positions wait for the others forever.
+        if any(self.comm.allgather(pos.ndim != 2 or pos.shape[1] < self.ndim)):
+            raise ValueError("positions have fewer columns than the dimensions of the domains.")
 
         if transform is None:
             transform = lambda x: x
@@ -617,7 +633,9 @@ class GridND(object):
         smoothing = numpy.empty(self.ndim, dtype='f8')
         smoothing[:] = _smoothing
 
-        assert pos.shape[1] >= self.ndim
+        # all ranks must raise, or those with good positions wait for the others forever.
+        if any(self.comm.allgather(pos.ndim != 2 or pos.shape[1] < self.ndim)):
+            raise ValueError("positions have fewer columns than the dimensions of the domains.")
 
         if transform is None:
             transform = lambda x: x
-- 
2.43.0


From 37e77b7ca7f8cd50861db28b206a3ba8213db353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 34/63] fix: a scalar mass on one rank and arrays on others
 hung painting

---
 pmesh/pm.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index bb86d44..e99c2ef 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1147,16 +1147,18 @@ def reindex(Nsrc, Ndest):
     return reindex
 
 def exchange(layout, value):
+    # all ranks must raise, or those with arrays wait for the others forever.
+    ndim = -1 if value is None else min(numpy.ndim(value), 1)
+    if len(set(layout.comm.allgather(ndim))) > 1:
+        raise ValueError("the value is an array on some of the ranks, but not on others.")
+
     if value is None:
         return None
 
-    if numpy.isscalar(value):
-        value = numpy.array(value)
-
-    if value.ndim != 0:
+    if numpy.ndim(value) != 0:
         localvalue = layout.exchange(value)
     else:
-        localvalue = value
+        localvalue = numpy.array(value)
     return localvalue
 
 def _typestr_to_type(typestr):
-- 
2.43.0


From 39ab22de5cf422ea4571951206009523c2df2d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 35/63] fix: ravel into a wrong array on one rank hung the
 other ranks

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index e99c2ef..b8b49af 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -417,7 +417,7 @@ class Field(NDArrayLike):
             out = out.flat
 
         assert isinstance(out, numpy.flatiter)
-        assert len(out) == self.size
+        assert all(self.pm.comm.allgather(len(out) == self.size))
         if self.pm.comm.size > 1:
             ind = numpy.ravel_multi_index(numpy.mgrid[self.slices], self.cshape)
             return mpsort.sort(self.flat, orderby=ind.flat, comm=self.pm.comm, out=out)
-- 
2.43.0


From cab081ef338fd613f7436b61060c800d20daacff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 36/63] fix: painting cleared the field before it refused the
 data

---
 pmesh/pm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index b8b49af..2bb12ca 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1854,10 +1854,10 @@ class ParticleMesh(object):
         if out is None:
             out = self.create(type=RealField)
 
-        if not hold:
-            out.value[...] = 0
-
         if layout is None:
+            if not hold:
+                out.value[...] = 0
+
             resampler.paint(out.value, pos, hsml=hsml, mass=mass, transform=transform, diffdir=gradient)
             return out
         else:
-- 
2.43.0


From d1054764c33373557c3ba0110d70301c1e41eece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:56 +0000
Subject: [PATCH 37/63] fix: packed exchange accepted columns of different
 shapes across ranks

They were cast to the shape on the first rank.
---
 pmesh/domain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 3323d4c..2c5137b 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -47,11 +47,15 @@ def bincountv(x, weights, minlength=None, dtype=None, out=None):
         out[ind] = numpy.bincount(x, weights[ind], minlength=minlength)
     return out
 
+def _columns(dtype):
+    """ shape of the columns of packed arrays """
+    return [dtype[name].shape for name in dtype.names or []]
+
 def promote(data, comm):
     data = numpy.asarray(data)
     dtype_root = comm.bcast(data.dtype)
     shape_root = comm.bcast(data.shape)
-    good = data.ndim > 0 and shape_root[1:] == data.shape[1:]
+    good = data.ndim > 0 and shape_root[1:] == data.shape[1:] and _columns(dtype_root) == _columns(data.dtype)
     if good:
         try:
             data = data.astype(dtype_root)
-- 
2.43.0


From 1fb092c409f7e1be6edcf49cc5a91c56a1b90398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:49 +0000
Subject: [PATCH 38/63] fix: line integral convolution lost samples off the
 local domain

---
 pmesh/lic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index a8c4df2..a58f8fa 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -58,18 +58,18 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
     resampler = FindResampler(resampler)
 
     f = texture.readout(Q, resampler='nearest')
-    vmax = max(abs(v[...]).max() for v in vectors)
-
     for sign in [-1, +1]:
         x = Q.copy()
         s = 0
         while s < length * 0.5:
             k = kernel(s * sign / (length * 0.5))
             dx = x * 0.0
-            layout = pm.decompose(x, smoothing=vmax * ds * 0.5 + resampler.support * 0.5)
+            layout = pm.decompose(x, smoothing=resampler)
             for d, v in enumerate(vectors):
                 dx[..., d] = v.readout(x, layout=layout, resampler=resampler) * ds
             x[...] += dx * 0.5 * sign
+            # the line may have left the domain of this rank
+            layout = pm.decompose(x, smoothing=resampler)
             f[...] += texture.readout(x, layout=layout, resampler=resampler) * k * ds
             x[...] += dx * 0.5 * sign
 
-- 
2.43.0


From a28ec8039b828e46025ff91e44b6051de99826f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:49 +0000
Subject: [PATCH 39/63] fix: line integral convolution stepped in box units
 rather than pixels

---
 pmesh/lic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index a58f8fa..1ff8099 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -57,6 +57,9 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
 
     resampler = FindResampler(resampler)
 
+    # length and ds are in pixels, the positions are in the unit of BoxSize
+    pixel = (pm.BoxSize / pm.Nmesh).min()
+
     f = texture.readout(Q, resampler='nearest')
     for sign in [-1, +1]:
         x = Q.copy()
@@ -66,7 +69,7 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
             dx = x * 0.0
             layout = pm.decompose(x, smoothing=resampler)
             for d, v in enumerate(vectors):
-                dx[..., d] = v.readout(x, layout=layout, resampler=resampler) * ds
+                dx[..., d] = v.readout(x, layout=layout, resampler=resampler) * (ds * pixel)
             x[...] += dx * 0.5 * sign
             # the line may have left the domain of this rank
             layout = pm.decompose(x, smoothing=resampler)
-- 
2.43.0


From 90823cdf41b007f46df9085a6d75fc197b76591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:39 +0000
Subject: [PATCH 40/63] fix: line integral convolution painted its result as
 smoothing lengths

---
 pmesh/lic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index 1ff8099..0772bf3 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -78,4 +78,4 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
 
             s += ds
 
-    return pm.paint(Q, f, resampler='nearest')
+    return pm.paint(Q, mass=f, resampler='nearest')
-- 
2.43.0


From bd23c34833535b565ec8d6952406c12869596d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 41/63] fix: coarray could not be constructed

---
 pmesh/coarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/coarray.py b/pmesh/coarray.py
index 01af88c..5a65884 100644
--- a/pmesh/coarray.py
+++ b/pmesh/coarray.py
@@ -194,7 +194,7 @@ class coameta(object):
 
 class coarray(numpy.ndarray):
     def __new__(kls, comm, *args, **kwargs):
-        self = super(coarray, cls).__new__(cls, *args, **kwargs)
+        self = super(coarray, kls).__new__(kls, *args, **kwargs)
         self.__coameta__ = coameta(comm, self)
         return self
 
-- 
2.43.0


From f829b614a77e98dd7e7e0e8ca4be084942c44a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 42/63] fix: coarray sync mixed up pulls and pushes, and
 garbled strided, scalar and broadcast values

---
 pmesh/coarray.py | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/pmesh/coarray.py b/pmesh/coarray.py
index 5a65884..e942be4 100644
--- a/pmesh/coarray.py
+++ b/pmesh/coarray.py
@@ -113,23 +113,25 @@ class coaproxy(object):
 
 class Op(object): pass
 
+# tags of the messages that answer a pull or carry a push; a pull and a push
+# between the same images shall not take each other's message.
+PULL, PUSH = 1, 2
+
 class Pull(Op):
     def __init__(self, coa, localindex, proxy):
         self.localindex = localindex
         self.coa = coa
         self.proxy = proxy
-        self.buffer = numpy.copy(coa[localindex], order='C') # continuous
         self.done = False
 
     def start(self):
-        comm = self.proxy.comm
-    #    print('irecv into', self.proxy.coindex, self.buffer.data)
-        return comm.Irecv(buf=self.buffer, source=self.proxy.coindex)
+        # answered by the other image
+        return []
 
     def finish(self):
-        self.coa[self.localindex] = self.buffer
-        self.buffer = None
+        buffer = self.proxy.comm.recv(source=self.proxy.coindex, tag=PULL)
         self.done = True
+        self.coa[self.localindex] = buffer
 
 class Push(Op):
     def __init__(self, proxy, value):
@@ -138,11 +140,11 @@ class Push(Op):
         self.done = False
 
     def start(self):
-        comm = self.proxy.comm
-    #    print('isend to ', self.proxy.coindex, self.buffer.data)
-        return comm.Isend(self.buffer, dest=self.proxy.coindex)
+        # a copy: the source may be changed by others in the same sync.
+        return [self.proxy.comm.isend(numpy.array(self.buffer), dest=self.proxy.coindex, tag=PUSH)]
 
     def finish(self):
+        self.buffer = None
         self.done = True
 
 class coameta(object):
@@ -186,8 +188,7 @@ class coameta(object):
 
             if proxy.coindex not in images: continue
 
-            request = op.start()
-            requests.append(request)
+            requests.extend(op.start())
             ops.append(op)
 
         return requests, ops
@@ -270,27 +271,22 @@ class coarray(numpy.ndarray):
             for index in sendindices:
                 value = value[index]
 
-            print('sending to', senddest, value.data, value, self)
-            comm.Send(value, dest=senddest)
+            requests.append(comm.isend(numpy.array(value), dest=senddest, tag=PULL))
 
-        for recvindices, recvsource in recvactions:
-            value = self
-            if len(recvindices) == 0:
-                recvindices = recvindices + [Ellipsis]
+        received = [comm.recv(source=recvsource, tag=PUSH) for recvindices, recvsource in recvactions]
 
+        for (recvindices, recvsource), buf in zip(recvactions, received):
+            value = self
             for index in recvindices[:-1]:
                 value = value[index]
 
-            print('receiving from ', recvsource, value.data)
             # trigger setitem
-            buf = numpy.zeros_like(value[recvindices[-1]])
-            comm.Recv(buf, recvsource)
             value[recvindices[-1]] = buf
 
-        MPI.Request.waitall(requests)
-
         for op in ops: op.finish()
 
+        MPI.Request.waitall(requests)
+
         self.__coameta__.operations = [op
                 for op in self.__coameta__.operations
                 if not op.done ]
-- 
2.43.0


From 6132f01c8d006231e98150af92a12df9e1c1b8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 43/63] fix: FromRoot left the other ranks waiting when the
 function failed on the root

---
 pmesh/tools.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pmesh/tools.py b/pmesh/tools.py
index 8a52011..d39669c 100644
--- a/pmesh/tools.py
+++ b/pmesh/tools.py
@@ -20,11 +20,16 @@ class Rotator(object):
 def FromRoot(comm):
     def decorator(func):
         def wrapped(*args, **kwargs):
+            rt, error = None, None
             if comm.rank == 0:
-                rt = func(*args, **kwargs)
-            else:
-                rt = None
-            rt = comm.bcast(rt)
+                try:
+                    rt = func(*args, **kwargs)
+                except Exception as e:
+                    error = e
+            # the others are waiting, also if the function failed.
+            rt, error = comm.bcast((rt, error))
+            if error is not None:
+                raise error
             return rt
         return wrapped
     return decorator
-- 
2.43.0


From c87320828aa3f4870bd4e0ce13d45193c23d8cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 44/63] fix: wave numbers of the last positive mode on odd
 legacy meshes

---
 pmesh/particlemesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/particlemesh.py b/pmesh/particlemesh.py
index 1d683b7..bf00bdc 100644
--- a/pmesh/particlemesh.py
+++ b/pmesh/particlemesh.py
@@ -136,8 +136,8 @@ class ParticleMesh(object):
             wi = numpy.arange(s[d], dtype='f4') + self.partition.local_o_start[d] 
             ri = numpy.arange(t[d], dtype='f4') + self.partition.local_i_start[d] 
 
-            wi[wi >= self.Nmesh // 2] -= self.Nmesh
-            ri[ri >= self.Nmesh // 2] -= self.Nmesh
+            wi[wi >= (self.Nmesh + 1) // 2] -= self.Nmesh
+            ri[ri >= (self.Nmesh + 1) // 2] -= self.Nmesh
 
             wi *= (2 * numpy.pi / self.Nmesh)
             ki = wi * self.Nmesh / self.BoxSize[d]
-- 
2.43.0


From 04d281c65edf6433a3b8ddc6b643f2e36357132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 45/63] fix: paint brush names were not case insensitive as
 intended

---
 pmesh/particlemesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/particlemesh.py b/pmesh/particlemesh.py
index bf00bdc..c68834d 100644
--- a/pmesh/particlemesh.py
+++ b/pmesh/particlemesh.py
@@ -155,9 +155,9 @@ class ParticleMesh(object):
         
         # set the painter
         self.paintbrush = paintbrush.lower()
-        if paintbrush == 'cic':
+        if self.paintbrush == 'cic':
             self.painter = cic.paint
-        elif paintbrush == 'tsc':
+        elif self.paintbrush == 'tsc':
             self.painter = tsc.paint
         else:
             raise ValueError("valid `painter` values are: ['cic', 'tsc']")
-- 
2.43.0


From b5ce3e90fac6ba984cc78f4c7f60abc51f34a17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 46/63] fix: legacy decomposition lost part of tsc particles at
 domain edges

---
 pmesh/particlemesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/particlemesh.py b/pmesh/particlemesh.py
index c68834d..8ada91c 100644
--- a/pmesh/particlemesh.py
+++ b/pmesh/particlemesh.py
@@ -157,8 +157,10 @@ class ParticleMesh(object):
         self.paintbrush = paintbrush.lower()
         if self.paintbrush == 'cic':
             self.painter = cic.paint
+            self.smoothing = 1.0
         elif self.paintbrush == 'tsc':
             self.painter = tsc.paint
+            self.smoothing = 1.5
         else:
             raise ValueError("valid `painter` values are: ['cic', 'tsc']")
 
@@ -215,7 +217,7 @@ class ParticleMesh(object):
         to the correct MPI ranks that hosts the PM local mesh
         """
         with self.T['Decompose']:
-            return self.domain.decompose(pos, smoothing=1.0,
+            return self.domain.decompose(pos, smoothing=self.smoothing,
                     transform=self.transform0)
     def clear(self):
         """ 
-- 
2.43.0


From 916878e46112db75ce9df8cc399ccc4e484af952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 47/63] fix: Laplace transfer function used the last row for
 all

---
 pmesh/transfer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pmesh/transfer.py b/pmesh/transfer.py
index c23a503..9da50bd 100644
--- a/pmesh/transfer.py
+++ b/pmesh/transfer.py
@@ -200,9 +200,8 @@ class TransferFunction:
             w2 = w[0][row] ** 2
             for wi in w[1:]:
                 w2 = w2 + wi[0] ** 2
-            w2[w2 == 0] = numpy.inf
             w2 *= -1
-        complex[:] *= w2
+            complex[row] *= w2
 
     @staticmethod
     def Poisson(pm, complex):
-- 
2.43.0


From 6a3dcb4c164ae8faed68d52d48fd7db37ea48423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 48/63] fix: Trilinear transfer function could not be called

---
 pmesh/transfer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/transfer.py b/pmesh/transfer.py
index 9da50bd..2253a4d 100644
--- a/pmesh/transfer.py
+++ b/pmesh/transfer.py
@@ -66,7 +66,8 @@ class TransferFunction:
         ind = tuple(ind)
         complex[ind] = 0
     @staticmethod
-    def Trilinear(comm, complex, w):
+    def Trilinear(pm, complex):
+        w = pm.w
         for wi in w:
             # convert to 
             tmp = numpy.sinc(wi / (2 * numpy.pi)) ** 2
-- 
2.43.0


From 657dbb742eb6255bf3cc956699944ef4c0116075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 49/63] fix: PowerSpectrum transfer function failed, and
 counted only the last row of modes

---
 pmesh/transfer.py | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/pmesh/transfer.py b/pmesh/transfer.py
index 2253a4d..9e2182e 100644
--- a/pmesh/transfer.py
+++ b/pmesh/transfer.py
@@ -144,9 +144,14 @@ class TransferFunction:
             P = numpy.zeros(len(psout))
             N = numpy.zeros(len(psout))
 
+            wsum = numpy.zeros(len(psout))
+
+            # the singular planes are single counted (r2c transform), thus down weighted by 0.5
+            wl = abs(w[-1][:1])
+            singular = (wl == 0) | (wl >= numpy.pi * (1 - 1e-6))
+            weights = numpy.where(singular, 0.5, 1.0)[0]
+
             for row in range(complex.shape[0]):
-                # pickup the singular plane that is single counted (r2c transform)
-                singular = w[0][-1] == 0
                 scratch = w[0][row] ** 2
                 for wi in w[1:]:
                     scratch = scratch + wi[0] ** 2
@@ -154,30 +159,18 @@ class TransferFunction:
                 # now scratch stores w ** 2
                 dig = numpy.digitize(scratch.flat, w2edges)
 
-                # take the sum of w
-                scratch **= 0.5
-                # the singular plane is down weighted by 0.5
-                scratch[singular] *= 0.5
-
-                wsum = numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
-                wsum = comm.allreduce(wsum, MPI.SUM)
-
-                # take the sum of weights
-                scratch[...] = 1.0
-                # the singular plane is down weighted by 0.5
-                scratch[singular] = 0.5
-
-                N1 = numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
-                N += comm.allreduce(N1, MPI.SUM)
+                def binned(value):
+                    value = (value * weights).ravel()
+                    return numpy.bincount(dig, weights=value, minlength=wout.size + 2)[1: -1]
 
-                # take the sum of power
-                numpy.abs(complex[row], out=scratch)
-                scratch[...] **= 2.0
-                # the singular plane is down weighted by 0.5
-                scratch[singular] *= 0.5
+                # take the sum of w, of weights and of power
+                wsum += binned(scratch ** 0.5)
+                N += binned(numpy.ones_like(scratch))
+                P += binned(abs(complex[row]) ** 2.0)
 
-                P1 = numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
-                P += comm.allreduce(P1, MPI.SUM)
+            wsum = comm.allreduce(wsum, MPI.SUM)
+            N = comm.allreduce(N, MPI.SUM)
+            P = comm.allreduce(P, MPI.SUM)
 
             psout[:] = P / N 
             wout[:] = wsum / N
-- 
2.43.0


From 2076cef331ad6e7916410c715c545a864ba4f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 50/63] fix: numba cic lost the mass painted on meshes that are
 not contiguous

---
 pmesh/_cic.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pmesh/_cic.py b/pmesh/_cic.py
index 69fa714..3dbe0e0 100644
--- a/pmesh/_cic.py
+++ b/pmesh/_cic.py
@@ -59,6 +59,9 @@ def driver(pos, mesh, weights, mode, period, transform,
         p[...] = period
         period = p
 
+    # a copy if the mesh is not C contiguous
+    meshflat = mesh.ravel()
+    outbound = 0
     for start in range(0, Np, chunksize):
         chunk = slice(start, start+chunksize)
         mypos = transform(pos[chunk])
@@ -67,9 +70,15 @@ def driver(pos, mesh, weights, mode, period, transform,
             wchunk[:] = weights
         else:
             wchunk = weights[chunk]
-        if callback(mypos, mesh, mesh.ravel(), wchunk, period) \
-                and mode == "raise":
-           raise ValueError("Some points are out of boundary")
+        outbound += callback(mypos, mesh, meshflat, wchunk, period)
+        if outbound and mode == "raise":
+            break
+
+    if callback is paint_some and not numpy.shares_memory(meshflat, mesh):
+        mesh[...] = meshflat.reshape(mesh.shape)
+
+    if outbound and mode == "raise":
+        raise ValueError("Some points are out of boundary")
     return mesh
 @numba.jit(nopython=True)
 def paint_some(pos, mesh, meshflat, weights, period):
-- 
2.43.0


From d2177b3793a0e00e431f19543d0344aac88095c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 51/63] fix: tsc painted one cell off

---
 pmesh/tsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/tsc.py b/pmesh/tsc.py
index 782a4e5..195c914 100644
--- a/pmesh/tsc.py
+++ b/pmesh/tsc.py
@@ -84,7 +84,7 @@ def paint_some(pos, mesh, meshflat, weights, period):
                 intpos = numpy.rint(pos[i, d]) # NGP index
                 diff = intpos - pos[i, d]
                 rel = (n // 3**d) % 3 - 1 # maps offset (rel. to NGP) to (-1, 0, 1)
-                targetpos = intpos + rel - 1
+                targetpos = intpos + rel
                 if rel == -1: # before NGP
                     kernel *= 0.5 * (0.5+diff)*(0.5+diff)
                 elif rel == 0: # NGP
-- 
2.43.0


From 2b173a96f1a5113af96f61855f3347b8732f9d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 52/63] fix: tsc did not take a period for every axis

---
 pmesh/tsc.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pmesh/tsc.py b/pmesh/tsc.py
index 195c914..977475e 100644
--- a/pmesh/tsc.py
+++ b/pmesh/tsc.py
@@ -52,7 +52,11 @@ def driver(pos, mesh, weights, mode, period, transform,
     # scratch 
     if transform is None:
         transform = lambda x:x
-    if period is None: period = 0
+    if period is None: period = numpy.zeros(Ndim, dtype='i4')
+    else:
+        p = numpy.empty(Ndim, dtype='i4')
+        p[...] = period
+        period = p
     for start in range(0, Np, chunksize):
         chunk = slice(start, start+chunksize)
         mypos = transform(pos[chunk])
@@ -72,7 +76,6 @@ def paint_some(pos, mesh, meshflat, weights, period):
     Np = pos.shape[0]
     Nmax = int(3 ** Ndim)
     ignore = False
-    period = int(period)
     outbound = 0
     for i in range(Np):
         w = float(weights[i])
@@ -93,11 +96,11 @@ def paint_some(pos, mesh, meshflat, weights, period):
                     kernel *= 0.5 * (0.5-diff)*(0.5-diff)
                 
                 # wrap by period
-                if period > 0:
-                    while targetpos >= period:
-                        targetpos -= period
+                if period[d] > 0:
+                    while targetpos >= period[d]:
+                        targetpos -= period[d]
                     while targetpos < 0:
-                        targetpos += period
+                        targetpos += period[d]
                 if targetpos < 0 or \
                         targetpos >= mesh.shape[d]:
                     ignore = True
-- 
2.43.0


From 93e47b116cbcadbfee018b3aec96ed9547385632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 53/63] fix: tsc had no read out

---
 pmesh/tsc.py | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/pmesh/tsc.py b/pmesh/tsc.py
index 977475e..2716520 100644
--- a/pmesh/tsc.py
+++ b/pmesh/tsc.py
@@ -114,3 +114,47 @@ def paint_some(pos, mesh, meshflat, weights, period):
 
     return outbound
 
+@numba.jit(nopython=True)
+def readout_some(pos, mesh, meshflat, myvalue, period):
+    Ndim = pos.shape[1]
+    Np = pos.shape[0]
+    Nmax = int(3 ** Ndim)
+    ignore = False
+    outbound = 0
+    for i in range(Np):
+        value = 0.0
+        for n in range(Nmax):
+            ignore = False
+            kernel = 1.0
+            ind = 0
+            for d in range(Ndim):
+                intpos = numpy.rint(pos[i, d]) # NGP index
+                diff = intpos - pos[i, d]
+                rel = (n // 3**d) % 3 - 1 # maps offset (rel. to NGP) to (-1, 0, 1)
+                targetpos = intpos + rel
+                if rel == -1: # before NGP
+                    kernel *= 0.5 * (0.5+diff)*(0.5+diff)
+                elif rel == 0: # NGP
+                    kernel *= 0.75 - diff*diff
+                else: # after NGPs
+                    kernel *= 0.5 * (0.5-diff)*(0.5-diff)
+                
+                # wrap by period
+                if period[d] > 0:
+                    while targetpos >= period[d]:
+                        targetpos -= period[d]
+                    while targetpos < 0:
+                        targetpos += period[d]
+                if targetpos < 0 or \
+                        targetpos >= mesh.shape[d]:
+                    ignore = True
+                    break
+                ind += mesh.strides[d]*targetpos
+
+            if ignore:
+                outbound += 1
+                continue
+            value += meshflat[int(ind/mesh.itemsize)] * kernel
+        myvalue[i] = value
+
+    return outbound
-- 
2.43.0


From 8caf58d3d7ff2e1f7cb4cee98c8ccff9675a23da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 54/63] fix: lanczos painting normalised one dimension only

---
 pmesh/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/lanczos.py b/pmesh/lanczos.py
index 18ac17a..35d9cc9 100644
--- a/pmesh/lanczos.py
+++ b/pmesh/lanczos.py
@@ -122,7 +122,7 @@ def paint(pos, mesh, weights=1.0, mode="raise", period=None, transform=None, win
             kernel = window(gridpos - targetpos).prod(axis=-1)
             #dx = gridpos - targetpos
             #kernel = window((dx ** 2).sum(axis=-1) ** 0.5)
-            add = wchunk * (kernel / window.integral)
+            add = wchunk * (kernel / window.integral ** Ndim)
 
             if period is not None:
                 numpy.remainder(targetpos, period, targetpos)
-- 
2.43.0


From 54cfb6329c17a4fdb2415dc4105d894b640a2327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:12 +0000
Subject: [PATCH 55/63] fix: abopt transfer functions and low-pass on meshes of
 several dimensions

The masks were combined with bitwise_and.reduce over a list of arrays of
different shapes, which numpy refuses.
---
 pmesh/abopt.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index dec6048..e4a5650 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -11,8 +11,10 @@ from pmesh.pm import ParticleMesh, RealField, ComplexField
 
 def nyquist_mask(factor, v):
     # any nyquist modes are set to 0 if the transfer function is complex
-    mask = (numpy.imag(factor) == 0) | \
-            ~numpy.bitwise_and.reduce([(ii == 0) | (ii == ni // 2) for ii, ni in zip(v.i, v.Nmesh)])
+    selfconj = numpy.ones(v.shape, '?')
+    for ii, ni in zip(v.i, v.Nmesh):
+        selfconj &= (ii == 0) | (ii == ni // 2)
+    mask = (numpy.imag(factor) == 0) | ~selfconj
     return factor * mask
 
 class ParticleMeshVectorSpace(VectorSpace):
@@ -109,7 +111,9 @@ class ParticleMeshEngine(Engine):
     @staticmethod
     def _lowpass_filter(k, v, Neff):
         k0s = 2 * numpy.pi / v.BoxSize
-        mask = numpy.bitwise_and.reduce([abs(ki) <= Neff//2 * k0 for ki, k0 in zip(k, k0s)])
+        mask = numpy.ones(v.shape, '?')
+        for ki, k0 in zip(k, k0s):
+            mask &= abs(ki) <= Neff//2 * k0
         return v * mask
 
     @statement(aout=['real'], ain=['real'])
-- 
2.43.0


From e337999a57ca75bf7a201ad55be8e4b8f1dd9fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:12 +0000
Subject: [PATCH 56/63] fix: abopt transfer functions dropped modes of odd
 meshes

ni // 2 is the Nyquist frequency of even meshes only.
---
 pmesh/abopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index e4a5650..eb062f1 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -13,7 +13,7 @@ def nyquist_mask(factor, v):
     # any nyquist modes are set to 0 if the transfer function is complex
     selfconj = numpy.ones(v.shape, '?')
     for ii, ni in zip(v.i, v.Nmesh):
-        selfconj &= (ii == 0) | (ii == ni // 2)
+        selfconj &= (ni - ii) % ni == ii
     mask = (numpy.imag(factor) == 0) | ~selfconj
     return factor * mask
 
-- 
2.43.0


From 41d4503e1f23ad80dd6a1879688215b916ff6b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:12 +0000
Subject: [PATCH 57/63] fix: the jvp of the abopt low-pass did not filter

The spectrum was made in a new field, so nothing was written to real_.
---
 pmesh/abopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index eb062f1..0f3db00 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -130,7 +130,7 @@ class ParticleMeshEngine(Engine):
 
     @lowpass.defjvp
     def _(engine, real_, Neff):
-        real_.r2c().apply(
+        real_.r2c(out=Ellipsis).apply(
             lambda k, v: engine._lowpass_filter(k, v, Neff),
             out=Ellipsis).c2r(out=Ellipsis)
 
-- 
2.43.0


From 7182b3891849c1412d6d9e61aaeb228a9621bb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:12 +0000
Subject: [PATCH 58/63] fix: the jvp of abopt paint lacked the normalisation to
 the mean density

---
 pmesh/abopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index 0f3db00..cf8163b 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -167,7 +167,9 @@ class ParticleMeshEngine(Engine):
     def _(engine, x_, mesh_, x, layout, layout_):
         pm = engine.pm
         if x_ is ZERO: x_ = None
+        N = pm.comm.allreduce(len(x))
         mesh_[...] = pm.paint_jvp(x, v_pos=x_, layout=layout)
+        mesh_[...][...] *= 1.0 * pm.Nmesh.prod() / N
 
     @statement(aout=['value'], ain=['x', 'mesh', 'layout'])
     def readout(engine, value, x, mesh, layout):
-- 
2.43.0


From f41c0450351f1fcc9b9730ffcafa8294e0b70be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:12 +0000
Subject: [PATCH 59/63] fix: abopt did not recognise all kinds of complex
 fields

---
 pmesh/abopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index cf8163b..76d6a09 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -7,7 +7,7 @@ warn("This module is deprecated and likely no longer maintained; a maintained ve
 import numpy
 from abopt.vmad2 import ZERO, Engine, statement, programme, CodeSegment, Literal
 from abopt.abopt2 import VectorSpace
-from pmesh.pm import ParticleMesh, RealField, ComplexField
+from pmesh.pm import ParticleMesh, RealField, BaseComplexField as ComplexField
 
 def nyquist_mask(factor, v):
     # any nyquist modes are set to 0 if the transfer function is complex
-- 
2.43.0


From 04288b15752e1d3656763e22c88746aa6cad7723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:38 +0000
Subject: [PATCH 60/63] fix: the vjp of the abopt low-pass did not filter

As the jvp: nothing was written to _real.
---
 pmesh/abopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index 76d6a09..98d5782 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -124,7 +124,7 @@ class ParticleMeshEngine(Engine):
 
     @lowpass.defvjp
     def _(engine, _real, Neff):
-        _real.c2r_vjp().apply(
+        _real.c2r_vjp(out=Ellipsis).apply(
             lambda k, v: engine._lowpass_filter(k, v, Neff),
             out=Ellipsis).r2c_vjp(out=Ellipsis)
 
-- 
2.43.0


From 5a93ea98de8f812e67d732c576019bff113d0bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 61/63] fix: the vjp of abopt assign_component propagated to
 the overwritten component

---
 pmesh/abopt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index 98d5782..dbcdcc3 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -224,7 +224,9 @@ class ParticleMeshEngine(Engine):
 
     @assign_component.defvjp
     def _(engine, _attribute, _value, dim):
-        _value[...] = _attribute[..., dim]
+        _value[...] = _attribute[..., dim].copy()
+        # the component before the assignment does not affect the result.
+        _attribute[..., dim] = 0
 
     @assign_component.defjvp
     def _(engine, attribute_, value_, dim):
-- 
2.43.0


From b4ea1cb24f425be807ea081c98321342acd8680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:55 +0000
Subject: [PATCH 62/63] fix: rounding decided whether the abopt low-pass kept
 the last modes

---
 pmesh/abopt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index dbcdcc3..9959053 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -113,7 +113,8 @@ class ParticleMeshEngine(Engine):
         k0s = 2 * numpy.pi / v.BoxSize
         mask = numpy.ones(v.shape, '?')
         for ki, k0 in zip(k, k0s):
-            mask &= abs(ki) <= Neff//2 * k0
+            # half a mode of room, such that rounding of ki does not matter.
+            mask &= abs(ki) < (Neff//2 + 0.5) * k0
         return v * mask
 
     @statement(aout=['real'], ain=['real'])
-- 
2.43.0


From 09d29d90da0f16fa436725c6d963805808f98811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:00 +0000
Subject: [PATCH 63/63] fix: r2c and c2r wrote past the buffer of an output
 that is on another mesh

---
 pmesh/pm.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 2bb12ca..c90d14c 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -450,6 +450,15 @@ class Field(NDArrayLike):
             # optimize for a single rank -- directly copy the result
             self.flat[...] = flatiter
 
+    def _check_samemesh(self, out):
+        """ the plans of self.pm write to the buffer of out with the layout of self.pm """
+        a, b = self.pm, out.pm
+        if a is b: return
+
+        if (list(a.Nmesh) != list(b.Nmesh) or list(a.np) != list(b.np)
+            or a.dtype != b.dtype or a._use_padded != b._use_padded):
+            raise ValueError("The output is a field of a different mesh.")
+
     def cast(self, type, out=None):
         """ cast the field object to the given type, maintaining the meaning of the field.
         """
@@ -667,6 +676,7 @@ class RealField(Field):
             out = TransposedComplexField(self.pm, base=self._base)
 
         assert isinstance(out, (BaseComplexField,))
+        self._check_samemesh(out)
 
         if not self.pm._use_padded:
             # non-padded destroys input, so we fall back
@@ -996,6 +1006,7 @@ class BaseComplexField(Field):
             out = RealField(self.pm, self._base)
 
         assert isinstance(out, RealField)
+        self._check_samemesh(out)
 
         if not self.pm._use_padded:
             # non-padded destroys input, so we fall back
-- 
2.43.0

