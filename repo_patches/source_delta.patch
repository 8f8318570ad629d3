From 7a68024a5a390497542cbb7315ac87b58e64f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:00 +0000
Subject: [PATCH 01/87] fix: publish the galaxy master table only after the ids
 are checked or generated

The master table was written before the uniqueness check and before unique ids
were generated, so a catalog with duplicate ids was left finalized on disk (with
the lock of a parallel ingestion still held), and concurrent readers could use
ids that were about to be replaced.
---
 redmapper/galaxy.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 781dcff..7794b40 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -886,8 +886,6 @@ class GalaxyCatalogMaker(object):
         hdr['PIXELS'] = 1
         hdr['FITS'] = 1
 
-        tab.to_fits_file(self.filename, header=hdr, clobber=True)
-
         # Check for galaxy uniqueness or generate unique ids
         if self.generate_unique_ids:
             ctr = 1
@@ -919,8 +917,15 @@ class GalaxyCatalogMaker(object):
                     ctr += tab.ngals[i]
 
             if len(np.unique(ids)) < len(ids):
+                if self.parallel:
+                    # Do not leave the lockfile behind.
+                    os.remove(lockfile)
                 raise RuntimeError("Input galaxy IDs must be unique.  Fix input catalog or use generate_unique_ids")
 
+        # The presence of the master table means that the catalog is complete,
+        # so this must be written only after the ids are known to be good.
+        tab.to_fits_file(self.filename, header=hdr, clobber=True)
+
         self.is_finalized = True
 
         if self.parallel:
-- 
2.43.0


From 4744d2356c34a66dcce59432d84f08d5be0b29ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:06 +0000
Subject: [PATCH 02/87] fix: take the pixel number from the end of the pixel
 filename when finalizing

The first _NNNNNNN anywhere in the path was used, so a catalog base name or
directory with 7 digits after an underscore gave a wrong pixel.
---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 7794b40..d13a702 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -807,7 +807,7 @@ class GalaxyCatalogMaker(object):
             # Figure out which hpixels are there
             files = sorted(glob.glob('%s/%s_???????.fit' % (self.outpath, self.outbase_nopath)))
             for f in files:
-                m = re.search(r'_(\d{7})', f)
+                m = re.search(r'_(\d{7})\.fit$', f)
                 if m is None:
                     raise RuntimeError("Malformed filename for pixel file: %s" % (f))
 
-- 
2.43.0


From e82ade8254779db845b9e92d7824ddbaa5e85b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 03/87] fix: allow the galaxy maker to read a geometric mask

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index d13a702..99d7119 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -541,7 +541,7 @@ class FakeMaskConfig(object):
 
         class TempD(object):
             def __init__(self):
-                self.hpix = 0
+                self.hpix = []
                 self.nside = 0
 
         self.d = TempD()
-- 
2.43.0


From 20cdf92324fec62676d11917c9db0cba0deac67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 04/87] fix: appending a batch with no galaxies in the
 footprint is not an error

---
 redmapper/galaxy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 99d7119..aba7f7c 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -734,6 +734,10 @@ class GalaxyCatalogMaker(object):
             good = self.mask.compute_radmask(gals['ra'], gals['dec'])
             gals = gals[good]
 
+        if gals.size == 0:
+            # Nothing (left) to append
+            return
+
         ipring = hpg.angle_to_pixel(self.nside, gals['ra'], gals['dec'], nest=False)
 
         h, rev = esutil.stat.histogram(ipring, min=0, max=self.ngals.size-1, rev=True)
-- 
2.43.0


From a2438b434b23cb82addc990d585f6556ce37516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 05/87] fix: do not leave an unreadable master table for an
 empty galaxy catalog

---
 redmapper/galaxy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index aba7f7c..b83716e 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -823,6 +823,12 @@ class GalaxyCatalogMaker(object):
 
         hpix, = np.where(self.ngals > 0)
 
+        if hpix.size == 0:
+            if self.parallel:
+                # Do not leave the lockfile behind.
+                os.remove(lockfile)
+            raise RuntimeError("Cannot finalize a catalog with no galaxies.")
+
         filename_dtype = 'a%d' % (len(self.outbase_nopath) + 15)
 
         dtype = [('nside', 'i2'),
-- 
2.43.0


From 4d313739201c8f99d0940fde857121e866c1cb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:06 +0000
Subject: [PATCH 06/87] fix: report the offending pixel when hpix is out of
 range

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index b83716e..b3033c2 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -138,7 +138,7 @@ class GalaxyCatalog(Catalog):
             if len(_hpix) > 0:
                 for _hp in _hpix:
                     if _hp < 0 or _hp >= hpg.nside_to_npixel(nside):
-                        raise ValueError("hpix %d is out of range." % (hp))
+                        raise ValueError("hpix %d is out of range." % (_hp))
 
         if border > 0.0 and len(_hpix) > 0:
             if len(_hpix) != 1:
-- 
2.43.0


From 05215745b6dec9024c840e023065226d0e1841f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:06 +0000
Subject: [PATCH 07/87] fix: use the recorded zspec flag of the galaxy table

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index b3033c2..cb7be32 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -265,7 +265,7 @@ class GalaxyCatalog(Catalog):
 
         if zspec:
             try:
-                cat_has_zspec = tab.has_spec
+                cat_has_zspec = tab.has_zspec
             except:
                 cat_has_zspec = 'zspec' in elt.dtype.names
             if not cat_has_zspec:
-- 
2.43.0


From 08676fea78b05dbfd6a747e1522603054f925db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:01 +0000
Subject: [PATCH 08/87] fix: compute zreds for catalogs with fewer galaxies
 than processes

---
 redmapper/zred_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_runner.py b/redmapper/zred_runner.py
index 16c2302..deb568f 100644
--- a/redmapper/zred_runner.py
+++ b/redmapper/zred_runner.py
@@ -75,7 +75,7 @@ class ZredRunCatalog(object):
 
         if nperproc is None:
             nperproc = int(float(ngal) / (self.config.calib_nproc - 0.1))
-            nperproc = np.clip(nperproc, None, maxperproc)
+            nperproc = np.clip(nperproc, 1, maxperproc)
 
         inds = np.arange(0, ngal, nperproc)
         worker_list = [(ind, np.clip(ind + nperproc, None, ngal)) for ind in inds]
-- 
2.43.0


From b1128cd5b7d22414042cd484206bce727b34683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:01 +0000
Subject: [PATCH 09/87] fix: apply the zred2 magnitude slope in bulk as for
 single galaxies

---
 redmapper/zred_color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_color.py b/redmapper/zred_color.py
index 303d5b0..439763d 100644
--- a/redmapper/zred_color.py
+++ b/redmapper/zred_color.py
@@ -84,7 +84,7 @@ class ZredColor(object):
             galaxies.zred = galaxies.zred_uncorr + dzs
             galaxies.zred_e = galaxies.zred_uncorr_e * interpol(self.zredstr.corr_r, self.zredstr.z, galaxies.zred)
 
-            dz2s = interpol(self.zredstr.corr2, self.zredstr.z, galaxies.zred_uncorr)
+            dz2s = interpol(self.zredstr.corr2, self.zredstr.z, galaxies.zred_uncorr) + (galaxies.refmag - pivotmags) * interpol(self.zredstr.corr2_slope, self.zredstr.z, galaxies.zred_uncorr)
             r2s = interpol(self.zredstr.corr2_r, self.zredstr.z, galaxies.zred_uncorr)
 
             galaxies.zred2 = galaxies.zred_uncorr + dz2s
-- 
2.43.0


From 1f829b7fa45df454bb039584ebbbfd4b35de9460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:01 +0000
Subject: [PATCH 10/87] fix: galaxies without a valid zred keep the bad-value
 marker in bulk runs

---
 redmapper/zred_color.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/zred_color.py b/redmapper/zred_color.py
index 439763d..0d95757 100644
--- a/redmapper/zred_color.py
+++ b/redmapper/zred_color.py
@@ -90,6 +90,10 @@ class ZredColor(object):
             galaxies.zred2 = galaxies.zred_uncorr + dz2s
             galaxies.zred2_e = galaxies.zred_uncorr_e * r2s
 
+            # Do not "correct" galaxies that do not have a valid zred.
+            bad, = np.where(galaxies.chisq < 0.0)
+            for ind in bad:
+                self._reset_bad_values(galaxies[ind])
 
     def compute_zred(self, galaxy, no_corrections=False):
         """
-- 
2.43.0


From e3fd9a46b3e350c7f5d9720024fbd35c92c97722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:50 +0000
Subject: [PATCH 11/87] fix: use each redshift's own slope in the
 reference-magnitude error term for many galaxies at many redshifts

---
 redmapper/chisq_dist/chisq_dist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/chisq_dist/chisq_dist.c b/redmapper/chisq_dist/chisq_dist.c
index f632c97..312c4e3 100644
--- a/redmapper/chisq_dist/chisq_dist.c
+++ b/redmapper/chisq_dist/chisq_dist.c
@@ -351,7 +351,7 @@ int chisq_dist(int mode, int do_chisq, int nophotoerr, int ncalc, int ncol,
 	      gsl_matrix_set_zero(cimat);
 	      for (j=0;j<ncol;j++) {
 		  for (k=j;k<ncol;k++) {
-		      val = slope[j] * slope[k] * refmagerr[i] * refmagerr[i];
+		      val = slope[i*ncol+j] * slope[i*ncol+k] * refmagerr[i] * refmagerr[i];
 		      gsl_matrix_set(cimat, j, k, val);
 		      if (k != j) {
 			  gsl_matrix_set(cimat, k, j, val);
-- 
2.43.0


From ac7b1447bab81eff0e33258353173ff3c00512bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:50 +0000
Subject: [PATCH 12/87] fix: chi-squared does not depend on the memory layout
 of its inputs

---
 redmapper/chisq_dist/chisq_dist_lib.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/redmapper/chisq_dist/chisq_dist_lib.py b/redmapper/chisq_dist/chisq_dist_lib.py
index 458a276..d9d2a1e 100644
--- a/redmapper/chisq_dist/chisq_dist_lib.py
+++ b/redmapper/chisq_dist/chisq_dist_lib.py
@@ -83,18 +83,20 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
        Float array of likelihoods.  Present if calc_lkhd=True.
     """
 
-    _covmat = covmat.astype('f8')
-    _c = c.astype('f8')
-    _slope = slope.astype('f8')
-    _pivotmag = np.atleast_1d(pivotmag.astype('f8'))
-    _refmag = np.atleast_1d(refmag.astype('f8'))
-    _magerr = magerr.astype('f8')
-    _color = color.astype('f8')
+    # The extension works on the raw memory, so the layout has to be explicit:
+    # one covariance matrix after the other, and the rest in C order.
+    _covmat = np.asfortranarray(covmat, dtype='f8')
+    _c = np.ascontiguousarray(c, dtype='f8')
+    _slope = np.ascontiguousarray(slope, dtype='f8')
+    _pivotmag = np.ascontiguousarray(np.atleast_1d(pivotmag), dtype='f8')
+    _refmag = np.ascontiguousarray(np.atleast_1d(refmag), dtype='f8')
+    _magerr = np.ascontiguousarray(magerr, dtype='f8')
+    _color = np.ascontiguousarray(color, dtype='f8')
 
     if (refmagerr is None):
         _refmagerr = np.zeros(refmag.size,dtype='f8')
     else:
-        _refmagerr = np.atleast_1d(refmagerr.astype('f8'))
+        _refmagerr = np.ascontiguousarray(np.atleast_1d(refmagerr), dtype='f8')
 
     # need to figure out the mode here...
     if (c.ndim == 1) :
@@ -152,7 +154,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((ngal, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = np.ascontiguousarray(lupcorr, dtype='f8')
 
         if (_lupcorr.shape[0] != ngal) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ncol x ngal for mode 0")
@@ -192,7 +194,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((nz, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = np.ascontiguousarray(lupcorr, dtype='f8')
 
         if (_lupcorr.shape[0] != nz) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ncol x nz for mode 1")
@@ -226,7 +228,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((ngal, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = np.ascontiguousarray(lupcorr, dtype='f8')
 
         if (_lupcorr.shape[0] != ngal) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ngal x ncol for mode 2")
-- 
2.43.0


From 6dd2e21697053b7db42444225a1fa140abb1b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:35 +0000
Subject: [PATCH 13/87] fix: refuse chi-squared inputs whose sizes would be
 read out of bounds

---
 redmapper/chisq_dist/chisq_dist_lib.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/redmapper/chisq_dist/chisq_dist_lib.py b/redmapper/chisq_dist/chisq_dist_lib.py
index d9d2a1e..a050cd5 100644
--- a/redmapper/chisq_dist/chisq_dist_lib.py
+++ b/redmapper/chisq_dist/chisq_dist_lib.py
@@ -173,6 +173,8 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
             raise ValueError("slope must have ncol x nz elements for mode 1")
         if (_pivotmag.size != nz):
             raise ValueError("pivotmag must be nz elements for mode 1")
+        if (_refmag.size != 1):
+            raise ValueError("refmag must be 1 element for mode 1")
 
         if (covmat.ndim != 3):
             raise ValueError("covmat must be 3 dimensions for mode 1")
@@ -215,6 +217,10 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
             raise ValueError("covmat must be 3 dimensions for mode 2")
         if (covmat.shape[2] != nz):
             raise ValueError("Third dimension of covmat must be nz for mode 2")
+        if (covmat.shape[0] != ncol or covmat.shape[1] != ncol):
+            raise ValueError("covmat must be ncol x ncol x nz for mode 2")
+        if (_refmag.size != ngal):
+            raise ValueError("refmag must be ngal elements for mode 2")
 
         if (magerr.ndim != 2):
             raise ValueError("magerr must be 2D for mode 2")
-- 
2.43.0


From 205646b5a71775ffa0cdbeee3d6b47cc9183abfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:11 +0000
Subject: [PATCH 14/87] fix: read galaxy catalogs with a single pixel

---
 redmapper/background.py            |  6 ++---
 redmapper/galaxy.py                | 36 ++++++++++++++++++++++++++++--
 redmapper/pipeline/mempredict.py   |  6 ++---
 redmapper/redmagic/redmagictask.py |  4 ++--
 redmapper/redmapper_run.py         |  3 ++-
 redmapper/zred_runner.py           |  4 ++--
 6 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index ea62073..7e25a82 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -20,7 +20,7 @@ except ImportError:
     import copyreg
 
 from .catalog import Entry
-from .galaxy import GalaxyCatalog
+from .galaxy import GalaxyCatalog, GalaxyTable
 from .redsequence import RedSequenceColorPar
 from .depthmap import DepthMap
 from .utilities import interpol, cic
@@ -450,7 +450,7 @@ class BackgroundGenerator(object):
 
         # How many galaxies total?
         if self.config.galfile_pixelized:
-            master = Entry.from_fits_file(self.config.galfile)
+            master = GalaxyTable.from_fits_file(self.config.galfile)
 
             if len(self.config.d.hpix) > 0:
                 # We need to take a sub-region
@@ -637,7 +637,7 @@ class ZredBackgroundGenerator(object):
         if not self.config.galfile_pixelized:
             raise ValueError("Only pixelized galfiles are supported at this moment.")
 
-        master = Entry.from_fits_file(self.config.galfile)
+        master = GalaxyTable.from_fits_file(self.config.galfile)
 
         if len(self.config.d.hpix) > 0:
             # We need to take a sub-region
diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index cb7be32..5705e20 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -61,6 +61,38 @@ class Galaxy(Entry):
         return self.mag[:-1] - self.mag[1:]
 
 
+class GalaxyTable(Entry):
+    """
+    Summary (master) table of a pixelized galaxy or zred catalog.
+
+    The per-pixel columns are always arrays, also if there is only one pixel
+    (which is read from fits as a scalar).
+    """
+    def __init__(self, array):
+        """
+        Instantiate a GalaxyTable.
+
+        Parameters
+        ----------
+        array: `np.ndarray` of length 1
+        """
+        dtype = []
+        for name in array.dtype.names:
+            dt = array.dtype[name]
+            if name.lower() in ('hpix', 'ra_pix', 'dec_pix', 'ngals', 'filenames') and dt.shape == ():
+                dtype.append((name, dt, (1, )))
+            else:
+                dtype.append((name, dt))
+
+        if np.dtype(dtype) != array.dtype:
+            _array = np.zeros(array.shape, dtype=dtype)
+            for name in array.dtype.names:
+                _array[name] = array[name].reshape(_array[name].shape)
+            array = _array
+
+        super(GalaxyTable, self).__init__(array)
+
+
 class GalaxyCatalog(Catalog):
     """
     Class to describe a redmapper galaxy Catalog.
@@ -174,14 +206,14 @@ class GalaxyCatalog(Catalog):
             raise ValueError("Input galfile must describe fits files.")
 
         # now we can read in the galaxy table summary file...
-        tab = Entry.from_fits_file(filename, ext=1)
+        tab = GalaxyTable.from_fits_file(filename, ext=1)
         nside_tab = tab.nside
         if nside > nside_tab:
             raise ValueError("""Requested nside (%d) must not be larger than
                                     table nside (%d).""" % (nside, nside_tab))
 
         if use_zred:
-            ztab = Entry.from_fits_file(zredfile, ext=1)
+            ztab = GalaxyTable.from_fits_file(zredfile, ext=1)
             zpath = os.path.dirname(zredfile)
 
         # which files do we want to read?
diff --git a/redmapper/pipeline/mempredict.py b/redmapper/pipeline/mempredict.py
index a64ff57..c10f6af 100644
--- a/redmapper/pipeline/mempredict.py
+++ b/redmapper/pipeline/mempredict.py
@@ -7,7 +7,7 @@ import esutil
 import fitsio
 
 from ..configuration import Configuration
-from ..catalog import Entry
+from ..galaxy import GalaxyTable
 
 
 class MemPredict(object):
@@ -37,7 +37,7 @@ class MemPredict(object):
         galmem_usage : `np.ndarray`
            Array with nside/galaxy memory usage for various nsides.
         """
-        tab = Entry.from_fits_file(self.config.galfile, ext=1)
+        tab = GalaxyTable.from_fits_file(self.config.galfile, ext=1)
         nside_tab = tab.nside
 
         path = os.path.dirname(os.path.abspath(self.config.galfile))
@@ -64,7 +64,7 @@ class MemPredict(object):
         nbytes = test.nbytes
 
         if include_zreds:
-            ztab = Entry.from_fits_file(self.config.zredfile, ext=1)
+            ztab = GalaxyTable.from_fits_file(self.config.zredfile, ext=1)
             zpath = os.path.dirname(self.config.zredfile)
             try:
                 fname = os.path.join(zpath, ztab.filenames[0].decode())
diff --git a/redmapper/redmagic/redmagictask.py b/redmapper/redmagic/redmagictask.py
index edf6a00..107b243 100644
--- a/redmapper/redmagic/redmagictask.py
+++ b/redmapper/redmagic/redmagictask.py
@@ -7,7 +7,7 @@ import fitsio
 from ..configuration import Configuration
 from .redmagic_selector import RedmagicSelector
 from ..catalog import Entry
-from ..galaxy import GalaxyCatalog
+from ..galaxy import GalaxyCatalog, GalaxyTable
 from ..plotting import SpecPlot, NzPlot
 from .redmagic_randoms import RedmagicGenerateRandoms
 from ..volumelimit import VolumeLimitMaskFixed
@@ -83,7 +83,7 @@ l           Output path.  Default is None, use same absolute
                 raise RuntimeError("redMaGiC file %s already exists, and clobber is False" % (filenames[i]))
 
         # Loop over all pixels in the galaxy table
-        tab = Entry.from_fits_file(self.config.galfile)
+        tab = GalaxyTable.from_fits_file(self.config.galfile)
 
         started = [False] * n_modes
 
diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index da0ea42..4a0e39c 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -22,6 +22,7 @@ except ImportError:
 from .utilities import _pickle_method
 
 from .catalog import Catalog, Entry
+from .galaxy import GalaxyTable
 from .run_firstpass import RunFirstPass
 from .run_likelihoods import RunLikelihoods
 from .run_percolation import RunPercolation
@@ -165,7 +166,7 @@ class RedmapperRun(object):
         """
 
         # need to redo logic here.  Dang.
-        tab = Entry.from_fits_file(self.config.galfile, ext=1)
+        tab = GalaxyTable.from_fits_file(self.config.galfile, ext=1)
 
         if self.config.calib_run_nproc == 1:
             if self.config.d.nside > self.config.calib_run_min_nside:
diff --git a/redmapper/zred_runner.py b/redmapper/zred_runner.py
index deb568f..ba5439a 100644
--- a/redmapper/zred_runner.py
+++ b/redmapper/zred_runner.py
@@ -19,7 +19,7 @@ except ImportError:
 from .utilities import _pickle_method
 
 from .zred_color import ZredColor
-from .galaxy import GalaxyCatalog, get_subpixel_indices, zred_extra_dtype
+from .galaxy import GalaxyCatalog, GalaxyTable, get_subpixel_indices, zred_extra_dtype
 from .catalog import Catalog, Entry
 from .redsequence import RedSequenceColorPar
 
@@ -212,7 +212,7 @@ class ZredRunPixels(object):
         zredstr = RedSequenceColorPar(self.config.parfile)
         self.zredc = ZredColor(zredstr)
 
-        self.galtable = Entry.from_fits_file(self.config.galfile)
+        self.galtable = GalaxyTable.from_fits_file(self.config.galfile)
         indices = list(get_subpixel_indices(self.galtable,
                                             hpix=self.config.d.hpix, border=self.config.border, nside=self.config.d.nside))
 
-- 
2.43.0


From 15173918d63e7b693f1826e5ec843751b81c1fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:05 +0000
Subject: [PATCH 15/87] fix: theta_r of galaxies outside r_lambda is zero with
 a hard radial cut

---
 redmapper/solver_nfw/nfw_weights.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/solver_nfw/nfw_weights.c b/redmapper/solver_nfw/nfw_weights.c
index 5678b51..67a82fe 100644
--- a/redmapper/solver_nfw/nfw_weights.c
+++ b/redmapper/solver_nfw/nfw_weights.c
@@ -45,6 +45,7 @@ int nfw_weights(double inlambda, double r0, double beta, long ngal,
 	 theta_r[i] = 1.0; // added by Tom
       } else {
          wt[i]=0.0;
+         theta_r[i] = 0.0;
       }
     } else { // rsig > 0.0
       /*
-- 
2.43.0


From eb04da8ab63961df5cb7f3451228d7836208e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:05 +0000
Subject: [PATCH 16/87] fix: masked fraction for the richness error uses the
 polynomial in the order it was fitted

---
 redmapper/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index 96a8290..4c6eea5 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -524,7 +524,7 @@ class Cluster(Entry):
         else:
             # Only do this computation if we have a valid measurement
             bar_pmem = np.sum(pmem**2.0)/np.sum(pmem)
-            cval = np.clip(np.sum(cpars * rlam**np.arange(cpars.size, dtype=float)),
+            cval = np.clip(np.sum(cpars * rlam**np.arange(cpars.size, dtype=float)[::-1]),
                            0.0, None)
 
             self.scaleval = np.absolute(lam / np.sum(pmem))
-- 
2.43.0


From db942a70b86c4d95571aa7f9f568052ea9aabfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:05 +0000
Subject: [PATCH 17/87] fix: calc_richness_fit can compute its richness error

---
 redmapper/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index 4c6eea5..290a324 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -748,9 +748,10 @@ class Cluster(Entry):
             lam_unscaled = lam / self.scaleval
 
             if calc_err:
+                cval = np.clip(np.polyval(cpars, rlam), 0.0, None)
                 lam_cerr = self.calc_lambdacerr(mask.maskgals, self.mstar,
                                                lam, rlam, pmem, cval, self.config.dldr_gamma)
-                lam_err = np.sqrt((1. - bar_pmem) * lam_unscaled + lambda_cerr**2.)
+                lam_err = np.sqrt((1. - bar_pmem) * lam_unscaled * self.scaleval**2. + lam_cerr**2.)
 
             # calculate pcol (color only)
             ucounts = d_wt * phi
-- 
2.43.0


From 40d09ef33d093ed3b1b37e63706f3258b1e8b9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:12 +0000
Subject: [PATCH 18/87] fix: a galaxy claimed by several clusters is never left
 with negative probability

The probabilities of the higher-ranked clusters add up and can exceed one,
which made pfree (and the membership weights) negative.
---
 redmapper/cluster_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index eebad42..6611672 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -403,7 +403,7 @@ class ClusterRunner(object):
                         continue
 
                     if self.do_percolation_masking:
-                        cluster.neighbors.pfree[:] = 1.0 - self.pgal[cluster.neighbors.index]
+                        cluster.neighbors.pfree[:] = np.clip(1.0 - self.pgal[cluster.neighbors.index], 0.0, None)
                     else:
                         cluster.neighbors.pfree[:] = 1.0
 
-- 
2.43.0


From f802fa7615b36319a6948045dc8bb34a9eae6052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:12 +0000
Subject: [PATCH 19/87] fix: unused centering slots do not name the last
 neighbor as a candidate center

---
 redmapper/run_percolation.py | 6 ++++--
 redmapper/run_zscan.py       | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 905c22f..9cfa816 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -308,8 +308,10 @@ class RunPercolation(ClusterRunner):
                 cluster.zred_e = cluster.neighbors.zred_e[cent.index[0]]
                 cluster.zred_chisq = cluster.neighbors.zred_chisq[cent.index[0]]
 
-            cluster.id_cent[:] = cluster.neighbors.id[cent.index]
-            cluster.neighbors.centering_cand[cent.index] = 1
+            # Unused candidate slots have an index of -1
+            cand, = np.where(cent.index >= 0)
+            cluster.id_cent[cand] = cluster.neighbors.id[cent.index[cand]]
+            cluster.neighbors.centering_cand[cent.index[cand]] = 1
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
diff --git a/redmapper/run_zscan.py b/redmapper/run_zscan.py
index aa580d5..4e30176 100644
--- a/redmapper/run_zscan.py
+++ b/redmapper/run_zscan.py
@@ -271,7 +271,9 @@ class RunZScan(ClusterRunner):
                 cluster.zred_e = cluster.neighbors.zred_e[cent.index[0]]
                 cluster.zred_chisq = cluster.neighbors.zred_chisq[cent.index[0]]
 
-            cluster.id_cent[:] = cluster.neighbors.id[cent.index]
+            # Unused candidate slots have an index of -1
+            cand, = np.where(cent.index >= 0)
+            cluster.id_cent[cand] = cluster.neighbors.id[cent.index[cand]]
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
-- 
2.43.0


From 1ccbe800853904a6a580c4b119f2af3a702862d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:24 +0000
Subject: [PATCH 20/87] fix: the preset id of a single input cluster is kept

---
 redmapper/cluster_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index 6611672..9051e60 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -292,7 +292,7 @@ class ClusterRunner(object):
         min_id = self.cat.mem_match_id.min()
         max_id = self.cat.mem_match_id.max()
 
-        if (min_id == max_id):
+        if min_id == max_id and (self.cat.size > 1 or min_id <= 0):
             # These are unset: generate them
             self.cat.mem_match_id = np.arange(self.cat.size) + 1
         else:
-- 
2.43.0


From 3c30383a5db138603090080a98f5f279eb069f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:00 +0000
Subject: [PATCH 21/87] fix: z_lambda correction without error correction, and
 without changing the caller's arrays

---
 redmapper/zlambda.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index f808769..6b0510e 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -706,9 +706,12 @@ class ZlambdaCorrectionPar(object):
 
             ozlam = copy.deepcopy(zlam)
 
-            zlam += dz
+            zlam = zlam + dz
 
-            if pzbins is None and not noerr:
+            if noerr:
+                extra_err = 0.0
+
+            if pzbins is None:
                 # No P(z).  Simple error application
                 zlam_e = np.sqrt(zlam_e**2. + extra_err**2.)
             else:
-- 
2.43.0


From 85211dd735ce00491369f3332ff576a2137743cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:55 +0000
Subject: [PATCH 22/87] fix: z_lambda correction leaves the caller's p(z)
 values alone, and the runner stores the corrected ones

---
 redmapper/cluster_runner.py | 2 +-
 redmapper/zlambda.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index 9051e60..c5bfdff 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -459,7 +459,7 @@ class ClusterRunner(object):
                                                                                           pzbins=cluster.pzbins,
                                                                                           pzvals=cluster.pz)
                         cluster.pzbins = pzbins
-                        cluster.pzvals = pzvals
+                        cluster.pz = pzvals
                     else:
                         zlam, zlam_e = self.zlambda_corr.apply_correction(cluster.Lambda,
                                                                           cluster.z_lambda,
diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index 6b0510e..3a6850f 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -727,7 +727,7 @@ class ZlambdaCorrectionPar(object):
                 pzbins = pdz * np.arange(npzbins) + zlam - pdz * (npzbins - 1)/2. + offset
 
                 n = scipy.integrate.simpson(y=pzvals, x=pzbins)
-                pzvals /= n
+                pzvals = pzvals / n
 
                 zlam_e = np.sqrt(zlam_e**2. + extra_err**2.)
 
-- 
2.43.0


From 2609ae2fff5781adba75ba28b0c6fb9d722ad5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:35 +0000
Subject: [PATCH 23/87] fix: first pass without seed file uses the configured
 radius/richness relation

---
 redmapper/run_firstpass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/run_firstpass.py b/redmapper/run_firstpass.py
index 9bb209c..5dbc94b 100644
--- a/redmapper/run_firstpass.py
+++ b/redmapper/run_firstpass.py
@@ -209,7 +209,9 @@ class RunFirstPass(ClusterRunner):
                                             zredstr=self.zredstr,
                                             config=self.config,
                                             bkg=self.bkg,
-                                            cosmo=self.cosmo)
+                                            cosmo=self.cosmo,
+                                            r0=self.r0,
+                                            beta=self.beta)
 
             self.cat.ra = self.gals.ra[use[good]]
             self.cat.dec = self.gals.dec[use[good]]
-- 
2.43.0


From 20d87c3e73d48bcefbfc1aa3b2b175e0ee78d151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:35 +0000
Subject: [PATCH 24/87] fix: total likelihood is set also before the centering
 model is calibrated

---
 redmapper/run_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index 81dc02c..f595379 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -234,7 +234,7 @@ class RunLikelihoods(ClusterRunner):
 
                 cluster.lnbcglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
 
-            cluster.lnlike = cluster.lnbcglike + cluster.lnlamlike
+        cluster.lnlike = cluster.lnbcglike + cluster.lnlamlike
 
         return bad
 
-- 
2.43.0


From d687a065f453059165f7ab27a9737594fbec007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:35 +0000
Subject: [PATCH 25/87] fix: store the central likelihood in its catalog column

---
 redmapper/run_likelihoods.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index f595379..1e4e388 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -160,7 +160,7 @@ class RunLikelihoods(ClusterRunner):
         Internal method to reset all cluster values to "bad" values.
         """
         cluster.lnlamlike = -1e11
-        cluster.lnbcglike = -1e11
+        cluster.lncglike = -1e11
         cluster.lnlike = -1e11
 
         super(RunLikelihoods, self)._reset_bad_values(cluster)
@@ -198,7 +198,7 @@ class RunLikelihoods(ClusterRunner):
         # And the central likelihood
         if self.config.lnw_cen_sigma <= 0.0:
             # We do not have a calibration yet
-            cluster.lnbcglike = 0.0
+            cluster.lncglike = 0.0
         else:
             # First phi_cen
             mbar = (cluster.mstar + self.config.wcen_Delta0 +
@@ -232,9 +232,9 @@ class RunLikelihoods(ClusterRunner):
             with warnings.catch_warnings():
                 warnings.simplefilter("error")
 
-                cluster.lnbcglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
+                cluster.lncglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
 
-        cluster.lnlike = cluster.lnbcglike + cluster.lnlamlike
+        cluster.lnlike = cluster.lncglike + cluster.lnlamlike
 
         return bad
 
-- 
2.43.0


From 249d3a66fe7ea47adaba7868a32a9811fe9f6b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:55 +0000
Subject: [PATCH 26/87] fix: chi-squared filter of the central likelihood

---
 redmapper/run_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index 1e4e388..c2b12b4 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -219,7 +219,7 @@ class RunLikelihoods(ClusterRunner):
                      np.exp(-0.5 * (cluster.neighbors.zred[minrind] - zrmod)**2. / cluster.neighbors.zred_e[minrind]**2.))
             else:
                 # chisq filter
-                g = chisq_pdf(cluster.neighbors.chisq[minrind], self.zredstr.dof)
+                g = chisq_pdf(cluster.neighbors.chisq[minrind], self.zredstr.ncol)
 
             # and the w filter
             lum = 10.**((cluster.mstar - cluster.neighbors.refmag) / 2.5)
-- 
2.43.0


From d170b74e134bdc55319732c0970574e4eeff5c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:56 +0000
Subject: [PATCH 27/87] fix: central likelihood of unlikely centers does not
 stop the stage by underflow

---
 redmapper/run_likelihoods.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index c2b12b4..ac78d5d 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -4,7 +4,6 @@ import fitsio
 import numpy as np
 import esutil
 import copy
-import warnings
 
 from .cluster import ClusterCatalog
 from .catalog import Catalog
@@ -203,8 +202,8 @@ class RunLikelihoods(ClusterRunner):
             # First phi_cen
             mbar = (cluster.mstar + self.config.wcen_Delta0 +
                     self.config.wcen_Delta1 * np.log(cluster.Lambda / self.config.wcen_pivot))
-            phi_cen = ((1. / (np.sqrt(2. * np.pi) * self.config.wcen_sigma_m)) *
-                       np.exp(-0.5 * (cluster.neighbors.refmag[minrind] - mbar)**2. / self.config.wcen_sigma_m**2.))
+            ln_phi_cen = (-0.5 * (cluster.neighbors.refmag[minrind] - mbar)**2. / self.config.wcen_sigma_m**2. -
+                          np.log(np.sqrt(2. * np.pi) * self.config.wcen_sigma_m))
 
             # And the zred or chisq filter
             if self.config.likelihoods_use_zred:
@@ -227,12 +226,10 @@ class RunLikelihoods(ClusterRunner):
             w = np.log(np.sum(cluster.neighbors.pmem[u] * lum[u] /
                               np.sqrt(cluster.neighbors.r[u]**2. + self.config.wcen_rsoft**2.)) / ((1. / cluster.r_lambda) * np.sum(cluster.neighbors.pmem[u] * lum[u])))
             sig = self.config.lnw_cen_sigma / np.sqrt(((np.clip(cluster.Lambda, None, self.config.wcen_maxlambda)) / cluster.scaleval) / self.config.wcen_pivot)
-            fw = (1. / (np.sqrt(2. * np.pi) * sig)) * np.exp(-0.5 * (np.log(w) - self.config.lnw_cen_mean)**2. / (sig**2.))
+            ln_fw = -0.5 * (np.log(w) - self.config.lnw_cen_mean)**2. / (sig**2.) - np.log(np.sqrt(2. * np.pi) * sig)
 
-            with warnings.catch_warnings():
-                warnings.simplefilter("error")
-
-                cluster.lncglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
+            # Sum the logs, because the product of the filters may underflow
+            cluster.lncglike = ln_phi_cen + np.log(np.clip(g, 1e-10, None)) + ln_fw
 
         cluster.lnlike = cluster.lncglike + cluster.lnlamlike
 
-- 
2.43.0


From 8413227f5c973cfc3195dd01715ce30f181aa72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:41 +0000
Subject: [PATCH 28/87] fix: the copy of a cluster has its catalog values and
 zred background

---
 redmapper/cluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index 290a324..94226e9 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -854,12 +854,14 @@ class Cluster(Entry):
     def __copy__(self):
         # This returns a copy of the cluster, and note that the neighbors will
         # be deepcopied which is what we want.
-        return Cluster(r0=self.r0,
+        return Cluster(cat_vals=self._ndarray.copy(),
+                       r0=self.r0,
                        beta=self.beta,
                        config=self.config,
                        zredstr=self.zredstr,
                        bkg=self.bkg,
                        cbkg=self.cbkg,
+                       zredbkg=self.zredbkg,
                        neighbors=self.neighbors)
 
 class ClusterCatalog(Catalog):
-- 
2.43.0


From 66acb68de9a4ebb26fee52d1fcae907e4870148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:49 +0000
Subject: [PATCH 29/87] fix: a galaxy catalog can be copied after it was
 matched

---
 redmapper/galaxy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 5705e20..2cab921 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -397,6 +397,12 @@ class GalaxyCatalog(Catalog):
                 # No cuts
                 return cls(cat)
 
+    def __getstate__(self):
+        # The matcher cannot be copied (or pickled), and is remade when needed
+        state = self.__dict__.copy()
+        state['_htm_matcher'] = None
+        return state
+
     @property
     def galcol(self):
         """
-- 
2.43.0


From d42313b413e2896f63ddae3ee1f990048ed569ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:49 +0000
Subject: [PATCH 30/87] fix: galaxies appended after a match are found by later
 matches

---
 redmapper/galaxy.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 2cab921..4e5e32b 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -397,6 +397,15 @@ class GalaxyCatalog(Catalog):
                 # No cuts
                 return cls(cat)
 
+    def append(self, append_cat):
+        super(GalaxyCatalog, self).append(append_cat)
+        # The matcher must be remade with the new galaxies
+        self._htm_matcher = None
+
+    def extend(self, n_new):
+        super(GalaxyCatalog, self).extend(n_new)
+        self._htm_matcher = None
+
     def __getstate__(self):
         # The matcher cannot be copied (or pickled), and is remade when needed
         state = self.__dict__.copy()
-- 
2.43.0


From b8c4ee03125034ae71ece6f8568539941892338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:49 +0000
Subject: [PATCH 31/87] fix: copy a cluster without redshift

---
 redmapper/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index 94226e9..bc619dd 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -848,7 +848,8 @@ class Cluster(Entry):
            Deep copy of the cluster
         """
         cluster = self.__copy__()
-        cluster.redshift = self.redshift
+        if self.redshift is not None:
+            cluster.redshift = self.redshift
         return cluster
 
     def __copy__(self):
-- 
2.43.0


From ef25d4cf05f80a4dbb6e9a5a50e7df87993e6676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:49 +0000
Subject: [PATCH 32/87] fix: dir() of catalogs

---
 redmapper/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index 2bd1f1c..2ae18bb 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -218,7 +218,7 @@ class DataObject(object):
         # also need to know original __dir__!
         return sorted(set(
                 dir(type(self)) +
-                self.__dict__.keys() +
+                list(self.__dict__.keys()) +
                 [x.lower() for x in self._ndarray.dtype.names]))
 
 
-- 
2.43.0


From 160ea92475ed4421968b0eb451e5f5f4581eef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:49 +0000
Subject: [PATCH 33/87] fix: row selection when writing a catalog with one row

---
 redmapper/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index 2ae18bb..5beae89 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -143,6 +143,8 @@ class DataObject(object):
         if self._ndarray.size == 1:
             temp_array = np.zeros(1, dtype=self._ndarray.dtype)
             temp_array[0] = self._ndarray
+            if indices is not None:
+                temp_array = temp_array[indices]
             fitsio.write(filename, temp_array, clobber=clobber, header=header, extname=extname)
         else:
             if indices is None:
-- 
2.43.0


From 5ce47d5cedf015baf66f4a292a21bd132dc45d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:36 +0000
Subject: [PATCH 34/87] fix: centering without any candidate reports failure
 instead of raising

---
 redmapper/centering.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redmapper/centering.py b/redmapper/centering.py
index 5641393..2663f29 100644
--- a/redmapper/centering.py
+++ b/redmapper/centering.py
@@ -158,6 +158,11 @@ class CenteringWcenZred(Centering):
                         ((self.cluster.neighbors.pmem > 0.0) |
                          (np.abs(self.cluster.redshift - z_neighbors) < 5.0 * z_neighbors_e)))
 
+        if use.size == 0:
+            # There are no candidate centers
+            self.q_miss = 1.0
+            return False
+
         # Do the phi_cen filter
         mbar = self.cluster.mstar + self.config.wcen_Delta0 + self.config.wcen_Delta1 * np.log(self.cluster.Lambda / self.config.wcen_pivot)
         phi_cen = gaussFunction(self.cluster.neighbors.refmag[use],
-- 
2.43.0


From 333dea7c3b23268e3a2ef4b193bb5a694892583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:36 +0000
Subject: [PATCH 35/87] fix: centering with spectroscopic redshifts leaves the
 zreds of the galaxies alone

---
 redmapper/centering.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/redmapper/centering.py b/redmapper/centering.py
index 2663f29..657cd35 100644
--- a/redmapper/centering.py
+++ b/redmapper/centering.py
@@ -86,8 +86,8 @@ class CenteringBCG(Centering):
         # This is somewhat arbitrary, and is not yet configurable
         pmem_cut = 0.8
 
-        z_neighbors = self.cluster.neighbors.zred
-        z_neighbors_e = self.cluster.neighbors.zred_e
+        z_neighbors = self.cluster.neighbors.zred.copy()
+        z_neighbors_e = self.cluster.neighbors.zred_e.copy()
         if self.config.centering_use_zspec:
             has_zspec, = np.where(self.cluster.neighbors.zspec > 0.0)
             z_neighbors[has_zspec] = self.cluster.neighbors.zspec[has_zspec]
@@ -142,9 +142,9 @@ class CenteringWcenZred(Centering):
            True when a center is successfully found. (Always True).
         """
 
-        z_neighbors = self.cluster.neighbors.zred
-        z_neighbors_e = self.cluster.neighbors.zred_e
-        chisq_neighbors = self.cluster.neighbors.zred_chisq
+        z_neighbors = self.cluster.neighbors.zred.copy()
+        z_neighbors_e = self.cluster.neighbors.zred_e.copy()
+        chisq_neighbors = self.cluster.neighbors.zred_chisq.copy()
         if self.config.centering_use_zspec:
             has_zspec, = np.where(self.cluster.neighbors.zspec > 0.0)
             z_neighbors[has_zspec] = self.cluster.neighbors.zspec[has_zspec]
-- 
2.43.0


From 161eb6d4c12cc9ca5bd999880a43ba0845806c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:01 +0000
Subject: [PATCH 36/87] fix: random centers across ra=0 have a valid right
 ascension

---
 redmapper/centering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/centering.py b/redmapper/centering.py
index 657cd35..15c1465 100644
--- a/redmapper/centering.py
+++ b/redmapper/centering.py
@@ -389,7 +389,7 @@ class CenteringRandom(Centering):
         ra_cen = self.cluster.ra + x / np.cos(np.radians(self.cluster.dec))
         dec_cen = self.cluster.dec + y
 
-        self.ra[0] = ra_cen[0]
+        self.ra[0] = ra_cen[0] % 360.0
         self.dec[0] = dec_cen[0]
         self.ngood = 1
         self.index[0] = -1
-- 
2.43.0


From 45a65f2914c81dfce5e8c8f4aceb0a1a188d3adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:01 +0000
Subject: [PATCH 37/87] fix: a single center is recorded in its slot only

---
 redmapper/run_percolation.py | 6 ++++--
 redmapper/run_zscan.py       | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 9cfa816..e21e557 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -315,8 +315,10 @@ class RunPercolation(ClusterRunner):
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
-        cluster.ra_cent[:] = cent.ra
-        cluster.dec_cent[:] = cent.dec
+        cluster.ra_cent[:] = -400.0
+        cluster.dec_cent[:] = -400.0
+        cluster.ra_cent[: len(cent.ra)] = cent.ra
+        cluster.dec_cent[: len(cent.dec)] = cent.dec
         cluster.p_cen[:] = cent.p_cen
         cluster.q_cen[:] = cent.q_cen
         cluster.p_fg[:] = cent.p_fg
diff --git a/redmapper/run_zscan.py b/redmapper/run_zscan.py
index 4e30176..e29f3ad 100644
--- a/redmapper/run_zscan.py
+++ b/redmapper/run_zscan.py
@@ -277,8 +277,10 @@ class RunZScan(ClusterRunner):
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
-        cluster.ra_cent[:] = cent.ra
-        cluster.dec_cent[:] = cent.dec
+        cluster.ra_cent[:] = -400.0
+        cluster.dec_cent[:] = -400.0
+        cluster.ra_cent[: len(cent.ra)] = cent.ra
+        cluster.dec_cent[: len(cent.dec)] = cent.dec
         cluster.p_cen[:] = cent.p_cen
         cluster.q_cen[:] = cent.q_cen
         cluster.p_fg[:] = cent.p_fg
-- 
2.43.0


From 4be2a7cb45f5381ffce392dfee8e5c3aa95e5d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:55 +0000
Subject: [PATCH 38/87] fix: maximum number of z_lambda iterations is honored
 when running a catalog

---
 redmapper/runcat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redmapper/runcat.py b/redmapper/runcat.py
index 7f7ac96..30997cd 100644
--- a/redmapper/runcat.py
+++ b/redmapper/runcat.py
@@ -131,6 +131,8 @@ class RunCatalog(ClusterRunner):
         maxmag = cluster.mstar - 2.5*np.log10(self.limlum)
 
         while iteration < self.maxiter and not done:
+            iteration += 1
+
             # Check if we got here because of a bad failure
             if bad:
                 done = True
-- 
2.43.0


From 3a8f743dd0d15d7fc3552f854b6d73aca6d3ea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:17 +0000
Subject: [PATCH 39/87] fix: consolidation with select_scaleval scales the
 clusters that are used

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index e9169d6..5b44982 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -160,8 +160,6 @@ class RedmapperConsolidateTask(object):
 
             # Note: when adding mock support, read in true galaxies to get members
 
-            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
-
             # Figure out which clusters are in the pixel, less than
             # max_maskfrac, and above percolation_minlambda (with or without
             # scale)
@@ -179,6 +177,8 @@ class RedmapperConsolidateTask(object):
 
             cat = cat[use]
 
+            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
+
             # match catalog with members via mem_match_id
             a, b = esutil.numpy_util.match(cat.mem_match_id, mem.mem_match_id)
 
-- 
2.43.0


From 2a03b973fc0c4a440f74e39a0bd0c5d8d973ece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:17 +0000
Subject: [PATCH 40/87] fix: consolidation when no cluster passes one of the
 cuts

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 5b44982..de73794 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -246,6 +246,10 @@ class RedmapperConsolidateTask(object):
 
         for i, minlambda in enumerate(self.lambda_cuts):
             for j, vlim_mask in enumerate(vlim_masks):
+                if not started[i, j]:
+                    self.config.logger.info('Warning: no clusters for richness cut %.2f' % (minlambda))
+                    continue
+
                 catfits = fitsio.FITS(cat_filename_dict[(i, j)][1], mode='rw')
                 memfits = fitsio.FITS(cat_filename_dict[(i, j)][2], mode='rw')
 
-- 
2.43.0


From b43a8418ef45bbd2c574b13f3cb5fc3bd80181bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:17 +0000
Subject: [PATCH 41/87] fix: consolidation takes the pixel from the end of the
 file name only

---
 redmapper/pipeline/redmapperconsolidatetask.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index de73794..7790dc9 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -80,7 +80,7 @@ class RedmapperConsolidateTask(object):
         self.config.logger.info("Found %d catalog files in %s" % (len(catfiles), self.config.outpath))
 
         # Extract the nside that was run
-        m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfiles[0])
+        m = re.search(r'_(\d+)_(\d\d\d\d\d)_final_catalog\.fit$', os.path.basename(catfiles[0]))
         if m is None:
             raise RuntimeError("Could not understand filename for %s" % (catfiles[0]))
 
@@ -128,7 +128,7 @@ class RedmapperConsolidateTask(object):
 
             # Extract pixnum from name
 
-            m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfile)
+            m = re.search(r'_(\d+)_(\d\d\d\d\d)_final_catalog\.fit$', os.path.basename(catfile))
             if m is None:
                 raise RuntimeError("Could not understand filename for %s" % (catfile))
 
@@ -338,7 +338,7 @@ class RuncatConsolidateTask(object):
         self.config.logger.info("Found %d catalog files in %s" % (len(catfiles), self.config.outpath))
 
         # Extract the nside that was run
-        m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfiles[0])
+        m = re.search(r'_(\d+)_(\d\d\d\d\d)_%s_catalog\.fit$' % (cattype), os.path.basename(catfiles[0]))
         if m is None:
             raise RuntimeError("Could not understand filename for %s" % (catfiles[0]))
 
@@ -361,7 +361,7 @@ class RuncatConsolidateTask(object):
 
             # Extract pixnum from name
 
-            m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfile)
+            m = re.search(r'_(\d+)_(\d\d\d\d\d)_%s_catalog\.fit$' % (cattype), os.path.basename(catfile))
             if m is None:
                 raise RuntimeError("Could not understand filename for %s" % (catfile))
 
-- 
2.43.0


From 4dc7704386ada4557a552c2800766e4e51ae0291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:17 +0000
Subject: [PATCH 42/87] fix: runcat consolidation only keeps the members of the
 clusters it keeps

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 7790dc9..69ea80c 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -404,6 +404,10 @@ class RuncatConsolidateTask(object):
 
             cat = cat[use]
 
+            if consolidate_members:
+                # Cut down members to those of the clusters in the pixel
+                mem = mem[np.isin(mem.mem_match_id, cat.mem_match_id)]
+
             if not started:
                 # Figure out filename
                 cat_fname = self.config.redmapper_filename('%s_catalog' % (cattype), withversion=True)
-- 
2.43.0


From b84aab2e11b5dd80ead3529a22cbfdd0feee78ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:17 +0000
Subject: [PATCH 43/87] fix: members of a catalog whose name ends in any of the
 letters of the extension

---
 redmapper/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/utilities.py b/redmapper/utilities.py
index e53507d..97ebeac 100644
--- a/redmapper/utilities.py
+++ b/redmapper/utilities.py
@@ -1091,7 +1091,7 @@ def read_members(catfile):
 
     from .galaxy import GalaxyCatalog
 
-    memfile = '%s_members.fit' % (catfile.rstrip('.fit'))
+    memfile = '%s_members.fit' % (os.path.splitext(catfile)[0])
 
     if not os.path.isfile(memfile):
         raise RuntimeError("Could not find member file %s" % (memfile))
-- 
2.43.0


From c17f0c4142a886e650827ae95ee79979ad3e3dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:38 +0000
Subject: [PATCH 44/87] fix: plots of a consolidated runcat catalog

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 69ea80c..e45fd3a 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -425,9 +425,9 @@ class RuncatConsolidateTask(object):
                     with fitsio.FITS(mem_fname, mode='rw') as fits:
                         fits[1].append(mem._ndarray)
 
-        if do_plots:
+        if do_plots and started:
             cat = Catalog.from_fits_file(cat_fname)
-            self.config.d.outbase = cat_name
+            self.config.d.outbase = os.path.basename(cat_fname).split('_catalog')[0]
             specplot = SpecPlot(self.config)
 
             if self.config.has_truth:
-- 
2.43.0


From 2fb3fe9ecd46611fe3012dc90a424ba67e352ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:49 +0000
Subject: [PATCH 45/87] fix: area of the volume limit mask is that of the
 pixels deep enough

---
 redmapper/volumelimit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index cfc6667..494ac28 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -304,7 +304,7 @@ class VolumeLimitMask(object):
 
         if np.sum(~lo) > 0:
             carea = pixsize * np.cumsum(fracgoods, dtype=np.float64)
-            astr.area[~lo] = carea[carea.size - inds[~lo]]
+            astr.area[~lo] = carea[-1] - carea[inds[~lo] - 1]
 
         return astr
 
-- 
2.43.0


From 5c5b81354019c100cd89310aed1cad17b417091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:49 +0000
Subject: [PATCH 46/87] fix: volume limit of positions beyond the pole

---
 redmapper/volumelimit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index 494ac28..35238d0 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -260,7 +260,7 @@ class VolumeLimitMask(object):
         if (len(ras) != len(decs)):
             raise ValueError("ras, decs must be same length")
 
-        values = self.sparse_vlimmap.get_values_pos(ras, decs, lonlat=True)
+        values = self.sparse_vlimmap.get_values_pos(ras, np.clip(decs, -90.0, 90.0), lonlat=True)
 
         bad, = np.where(np.abs(decs) > 90.0)
         values['zmax'][bad] = hpg.UNSEEN
-- 
2.43.0


From 78700bc329f2258fa5e131f746a5e75f3ed7fc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:12 +0000
Subject: [PATCH 47/87] fix: runcat pixel task uses RunCatalog without
 importing it

---
 redmapper/pipeline/redmappertask.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index affbfdb..0ebbb65 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -11,6 +11,7 @@ from ..run_likelihoods import RunLikelihoods
 from ..run_percolation import RunPercolation
 from ..run_randoms_zmask import RunRandomsZmask
 from ..run_zscan import RunZScan
+from ..runcat import RunCatalog
 
 from ..utilities import getMemoryString
 
-- 
2.43.0


From e8bd3d4bc242430385e04d405074586b0a7a8088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:12 +0000
Subject: [PATCH 48/87] fix: runcat and zscan pixel tasks write the file that
 they look for

The existence check and the consolidation task both use the name without
the version, so a restarted task recomputed the pixel and the
consolidation task found nothing.
---
 redmapper/pipeline/redmappertask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index 0ebbb65..41cdb7a 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -176,7 +176,7 @@ class RuncatPixelTask(object):
         runcat = RunCatalog(self.config)
         if not os.path.isfile(runcat.filename):
             runcat.run(do_percolation_masking=self.config.runcat_percolation_masking)
-            runcat.output(savemembers=True, withversion=True)
+            runcat.output(savemembers=True, withversion=False)
 
         self.config.stop_file_logging()
 
@@ -306,7 +306,7 @@ class RunZScanPixelTask(object):
         runzscan = RunZScan(self.config)
         if not os.path.isfile(runzscan.filename):
             runzscan.run()
-            runzscan.output(savemembers=True, withversion=True)
+            runzscan.output(savemembers=True, withversion=False)
 
         self.config.stop_file_logging()
 
-- 
2.43.0


From 2211045df8dffa8d3c5af96ba9a564c31786230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:12 +0000
Subject: [PATCH 49/87] fix: members missing after a run interrupted before
 writing them

The catalog was written first, and a restarted run skips the stage when
it finds the catalog.
---
 redmapper/cluster_runner.py         | 14 ++++++++------
 redmapper/pipeline/redmappertask.py |  6 +++---
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index c5bfdff..2981106 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -651,15 +651,17 @@ class ClusterRunner(object):
             self.config.logger.info("Warning: no catalog generated for %s" % (self._filename))
             return
 
-        self.config.logger.info("Writing catalog to file: %s" % (self._filename))
-        self.cat.to_fits_file(self._filename, clobber=clobber)
-
+        # The members are written before the catalog, because a run that is
+        # restarted takes the catalog file as proof that all is done.
         if savemembers:
             if self.members is None:
                 self.config.logger.info("Warning: no members generated for %s" % (self._filename))
-                return
-            memfilename = self.config.redmapper_filename(self.filetype + '_catalog_members', withversion=withversion, outbase=outbase)
-            self.members.to_fits_file(memfilename, clobber=clobber)
+            else:
+                memfilename = self.config.redmapper_filename(self.filetype + '_catalog_members', withversion=withversion, outbase=outbase)
+                self.members.to_fits_file(memfilename, clobber=clobber)
+
+        self.config.logger.info("Writing catalog to file: %s" % (self._filename))
+        self.cat.to_fits_file(self._filename, clobber=clobber)
 
     @property
     def filename(self):
diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index 41cdb7a..cb9d522 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -109,7 +109,7 @@ class RunRedmapperPixelTask(object):
 
         if not os.path.isfile(perc.filename):
             perc.run()
-            perc.output(savemembers=True, withversion=False)
+            perc.output(savemembers=True, withversion=False, clobber=True)
         else:
             self.config.logger.info("Percolation file %s already present.  Skipping..." % (perc.filename))
 
@@ -176,7 +176,7 @@ class RuncatPixelTask(object):
         runcat = RunCatalog(self.config)
         if not os.path.isfile(runcat.filename):
             runcat.run(do_percolation_masking=self.config.runcat_percolation_masking)
-            runcat.output(savemembers=True, withversion=False)
+            runcat.output(savemembers=True, withversion=False, clobber=True)
 
         self.config.stop_file_logging()
 
@@ -306,7 +306,7 @@ class RunZScanPixelTask(object):
         runzscan = RunZScan(self.config)
         if not os.path.isfile(runzscan.filename):
             runzscan.run()
-            runzscan.output(savemembers=True, withversion=False)
+            runzscan.output(savemembers=True, withversion=False, clobber=True)
 
         self.config.stop_file_logging()
 
-- 
2.43.0


From 2299fba340762755667a399ca5f7935d9bba2f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:41 +0000
Subject: [PATCH 50/87] fix: interrupted write leaves a partial catalog that a
 restarted run takes as done

---
 redmapper/catalog.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index 5beae89..aaa7110 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -5,6 +5,7 @@ like the old idl code (for good or ill).  It also makes some things a bit more
 readable.
 """
 
+import os
 import fitsio
 import esutil as eu
 import numpy as np
@@ -140,6 +141,22 @@ class DataObject(object):
         indices: `np.array`, optional
            Indices of rows to output.  Default is None (output all).
         """
+        if clobber or not os.path.isfile(filename):
+            # Write the file under another name and then rename it, so that
+            # an interrupted run leaves no partial file under the final name
+            # (which would be taken as complete when restarting.)
+            tempfile = os.path.join(os.path.dirname(filename),
+                                    '.%d_%s' % (os.getpid(), os.path.basename(filename)))
+            self._write_fits_file(tempfile, True, header, extname, indices)
+            os.replace(tempfile, filename)
+        else:
+            # This appends to the existing file
+            self._write_fits_file(filename, False, header, extname, indices)
+
+    def _write_fits_file(self, filename, clobber, header, extname, indices):
+        """
+        Internal method to write the file (see to_fits_file()).
+        """
         if self._ndarray.size == 1:
             temp_array = np.zeros(1, dtype=self._ndarray.dtype)
             temp_array[0] = self._ndarray
-- 
2.43.0


From f3d5edb71b1f58a4aea2d703738fe3602763a84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:41 +0000
Subject: [PATCH 51/87] fix: pixel task on a pixel without clusters

---
 redmapper/pipeline/redmappertask.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index cb9d522..6303a87 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -83,6 +83,12 @@ class RunRedmapperPixelTask(object):
 
         if not os.path.isfile(firstpass.filename):
             firstpass.run()
+
+            if firstpass.cat is None or firstpass.cat.size == 0:
+                self.config.logger.info("Did not produce a firstpass catalog for pixel %d" % (self.pixel))
+                self.config.stop_file_logging()
+                return
+
             firstpass.output(savemembers=False, withversion=False)
         else:
             self.config.logger.info("Firstpass file %s already present.  Skipping..." % (firstpass.filename))
@@ -96,6 +102,12 @@ class RunRedmapperPixelTask(object):
 
         if not os.path.isfile(like.filename):
             like.run()
+
+            if like.cat is None or like.cat.size == 0:
+                self.config.logger.info("Did not produce a likelihood catalog for pixel %d" % (self.pixel))
+                self.config.stop_file_logging()
+                return
+
             like.output(savemembers=False, withversion=False)
         else:
             self.config.logger.info("Likelihood file %s already present.  Skipping..." % (like.filename))
@@ -109,6 +121,12 @@ class RunRedmapperPixelTask(object):
 
         if not os.path.isfile(perc.filename):
             perc.run()
+
+            if perc.cat is None or perc.cat.size == 0:
+                self.config.logger.info("Did not produce a percolation catalog for pixel %d" % (self.pixel))
+                self.config.stop_file_logging()
+                return
+
             perc.output(savemembers=True, withversion=False, clobber=True)
         else:
             self.config.logger.info("Percolation file %s already present.  Skipping..." % (perc.filename))
-- 
2.43.0


From af2ffb843858178448eba9c80d284a6ab78f9f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:41 +0000
Subject: [PATCH 52/87] fix: run on a single process with pixels finer than
 calib_run_min_nside

run_min_nside is not a configuration value.
---
 redmapper/redmapper_run.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index 4a0e39c..81a571a 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -169,10 +169,7 @@ class RedmapperRun(object):
         tab = GalaxyTable.from_fits_file(self.config.galfile, ext=1)
 
         if self.config.calib_run_nproc == 1:
-            if self.config.d.nside > self.config.calib_run_min_nside:
-                nside_test = self.config.run_min_nside
-            else:
-                nside_test = np.clip(self.config.d.nside, 1, None)
+            nside_test = np.clip(self.config.d.nside, 1, None)
             subpixels = self._get_subpixels(nside_test, tab)
             return (nside_test, subpixels)
 
-- 
2.43.0


From 2e2b945fe6b00cb98ed66865406c27513ce31fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:41 +0000
Subject: [PATCH 53/87] fix: percolation-only pixel files of another nside
 taken as done

The number of a pixel says nothing without the nside, which depends on
the number of processes.
---
 redmapper/redmapper_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index 81a571a..6f66eda 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -487,7 +487,7 @@ class RedmapperRun(object):
 
         config.d.hpix = [hpix]
 
-        config.d.outbase = '%s_%05d' % (self.config.d.outbase, hpix)
+        config.d.outbase = '%s_%d_%05d' % (self.config.d.outbase, self.config.d.nside, hpix)
 
         perc = RunPercolation(config)
         if not os.path.isfile(perc.filename) or not self.check:
-- 
2.43.0


From 62d316c5e7e9edb89624af3f4c0b6a6dc746c735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:41 +0000
Subject: [PATCH 54/87] fix: likelihood or member file missing after an
 interrupted consolidation

The calibration skips the run when the final catalog exists.
---
 redmapper/redmapper_run.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index 6f66eda..f7b237f 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -134,15 +134,17 @@ class RedmapperRun(object):
         hpixels_perc = [x[0] for x in retvals if x[3] is not None]
         percfiles = [x[3] for x in retvals if x[3] is not None]
 
+        # The final file comes last, because its existence is taken as proof
+        # that the run is done.
+        if consolidate_like:
+            likefile = self._consolidate(hpixels_like, likefiles, 'like', members=False, check=check)
+
         # Allow for runs without consolidation
         if consolidate:
             finalfile = self._consolidate(hpixels_perc, percfiles, 'final', members=True, check=check)
         else:
             finalfile = None
 
-        if consolidate_like:
-            likefile = self._consolidate(hpixels_like, likefiles, 'like', members=False, check=check)
-
         # Reset the nside in the config file
         self.config.d.nside = nside_orig
 
@@ -357,11 +359,11 @@ class RedmapperRun(object):
         # And write out...
         # We can clobber because if it was already there and we wanted to check
         # that already happened
-        ubercat.to_fits_file(outfile, clobber=True)
-
         if members:
             ubermem.to_fits_file(memfile, clobber=True)
 
+        ubercat.to_fits_file(outfile, clobber=True)
+
         return outfile
 
     def _worker(self, hpix):
-- 
2.43.0


From 659dba3e2c284ecec944bcb7484b255d69707569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:41 +0000
Subject: [PATCH 55/87] fix: consolidation in a path with .fit in its name

---
 redmapper/redmapper_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index f7b237f..5f73875 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -317,7 +317,7 @@ class RedmapperRun(object):
             cat = cat[use]
 
             if members:
-                parts = f.split('.fit')
+                parts = os.path.splitext(f)
                 mem = Catalog.from_fits_file(parts[0] + '_members.fit')
 
                 # We are going to replace the mem_match_ids in the consolidated catalog,
-- 
2.43.0


From 32f1dbb8385cbaca70a8907829c6ad17e3a6b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:11 +0000
Subject: [PATCH 56/87] fix: runcat consolidation looks for the files that
 runcat writes

RunCatalog writes lambda_chisq catalogs, so nothing was ever found.
---
 bin/redmapper_consolidate_runcat.py            | 2 +-
 redmapper/pipeline/redmapperconsolidatetask.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/redmapper_consolidate_runcat.py b/bin/redmapper_consolidate_runcat.py
index fcb4cae..48f5b02 100644
--- a/bin/redmapper_consolidate_runcat.py
+++ b/bin/redmapper_consolidate_runcat.py
@@ -25,7 +25,7 @@ if __name__ == '__main__':
         do_plots = True
         match_spec = True
         consolidate_members = True
-        cattype = 'runcat'
+        cattype = 'lambda_chisq'
 
     consolidate = redmapper.pipeline.RuncatConsolidateTask(args.configfile)
     consolidate.run(do_plots=do_plots, match_spec=match_spec, consolidate_members=consolidate_members, cattype=cattype)
diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index e45fd3a..094f7a8 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -318,7 +318,7 @@ class RuncatConsolidateTask(object):
 
         self.config = Configuration(configfile, outpath=path)
 
-    def run(self, do_plots=True, match_spec=True, consolidate_members=True, cattype='runcat'):
+    def run(self, do_plots=True, match_spec=True, consolidate_members=True, cattype='lambda_chisq'):
         """
         Run the runcat consolidation task.
 
-- 
2.43.0


From 590d9b66ecd65f1b1e270c906836373431811e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:23 +0000
Subject: [PATCH 57/87] fix: configurations share the values of the last one
 loaded or changed

All values were stored on the class, so loading a second configuration, or
changing a copy, changed the first one.
---
 redmapper/configuration.py | 76 +++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 33 deletions(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 263c8dd..76001d6 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -60,59 +60,72 @@ class ConfigField(object):
         if self._value is None:
             self._value = self._default
 
+    def __set_name__(self, owner, name):
+        self._name = name
+
     def __get__(self, obj, type=None):
-        return self._value
+        # The values belong to the configuration object and not to the
+        # field, which is shared by all configurations.
+        if obj is None:
+            return self._value
+        if self._name not in obj.__dict__:
+            self.reset(obj)
+        return obj.__dict__[self._name]
 
     def __set__(self, obj, value):
         if self._isArray:
-            self._value = np.atleast_1d(value)
+            value = np.atleast_1d(value)
         elif self._isList:
-            self._value = list(value)
+            value = list(value)
         else:
             try:
                 if len(value) > 1:
                     raise ValueError("ConfigField cannot be length > 1")
             except:
                 pass
-            self._value = value
-
-    def reset(self):
-        """Reset the value to the default."""
-        self._value = self._default
+        obj.__dict__[self._name] = value
 
-    def set_length(self, length):
-        """Set the desired array length.
+    def reset(self, obj):
+        """Reset the value of a configuration to the default.
 
         Parameters
         ----------
-        length: `int`
-           Desired array length to pass validation.
+        obj: `redmapper.Configuration`
+           Configuration to reset the field of.
         """
-        self._array_length = length
+        obj.__dict__[self._name] = copy.copy(self._value)
 
-    def validate(self, name):
+    def validate(self, obj, name, length=None):
         """Validate the field.
 
         This needs the name because of python object weirdness.
 
         Parameters
         ----------
+        obj: `redmapper.Configuration`
+           Configuration to validate the field of.
         name: `str`
            Name of the field that is being validated.
+        length: `int`, optional
+           Desired array length to pass validation.
 
         Raises
         ------
         ValueError: if field does not validate.
         """
+        value = self.__get__(obj)
+
         if self._required:
-            if self._value is None:
+            if value is None:
                 raise ValueError("Required ConfigField %s is not set" % (name))
 
-        if self._value is not None and (self._isArray or self._isList):
-            if self._array_length is not None:
-                if len(self._value) != self._array_length:
+        if value is not None and (self._isArray or self._isList):
+            if length is None:
+                length = self._array_length
+            if length is not None:
+                if len(value) != length:
                     raise ValueError("ConfigField %s has the wrong length (%d != %d)" %
-                                     (name, len(self._value), self._array_length))
+                                     (name, len(value), length))
 
         return True
 
@@ -423,6 +436,7 @@ class Configuration(object):
            When invalid configs are used
         """
         self._file_logging_started = False
+        self._lengths = {}
 
         self._reset_vars()
 
@@ -447,8 +461,8 @@ class Configuration(object):
         self.logger = logging.getLogger(logname)
 
         # validate the galfile and refmag
-        type(self).__dict__['galfile'].validate('galfile')
-        type(self).__dict__['refmag'].validate('refmag')
+        type(self).__dict__['galfile'].validate(self, 'galfile')
+        type(self).__dict__['refmag'].validate(self, 'refmag')
 
         # get galaxy file stats
         gal_stats = self._galfile_stats()
@@ -560,10 +574,8 @@ class Configuration(object):
         """
 
         for var in type(self).__dict__:
-            try:
-                type(self).__dict__[var].validate(var)
-            except AttributeError:
-                pass
+            if isinstance(type(self).__dict__[var], ConfigField):
+                type(self).__dict__[var].validate(self, var, length=self._lengths.get(var))
 
     def copy(self):
         """
@@ -614,10 +626,8 @@ class Configuration(object):
         Internal method to reset variables to defaults
         """
         for var in type(self).__dict__:
-            try:
-                type(self).__dict__[var].reset()
-            except AttributeError:
-                pass
+            if isinstance(type(self).__dict__[var], ConfigField):
+                type(self).__dict__[var].reset(self)
 
     def _set_vars_from_dict(self, d, check_none=False):
         """
@@ -655,7 +665,7 @@ class Configuration(object):
         for arr in l:
             if arr not in type(self).__dict__:
                 raise AttributeError("Unknown config variable: %s" % (arr))
-            type(self).__dict__[arr].set_length(length)
+            self._lengths[arr] = length
 
 
     def _galfile_stats(self):
@@ -944,14 +954,14 @@ class Configuration(object):
             if isinstance(type(self).__dict__[key], ConfigField):
                 if type(self).__dict__[key]._isArray:
                     # Convert all elements to python types and make a list
-                    out_dict[key] = np.ndarray.tolist(type(self).__dict__[key]._value)
+                    out_dict[key] = np.ndarray.tolist(getattr(self, key))
                 else:
                     # Try to use numpy to convert to scalar; if it doesn't work then
                     # it's not numpy and we can use the value directly
                     try:
-                        out_dict[key] = type(self).__dict__[key]._value.item()
+                        out_dict[key] = getattr(self, key).item()
                     except (ValueError, AttributeError, TypeError):
-                        out_dict[key] = type(self).__dict__[key]._value
+                        out_dict[key] = getattr(self, key)
 
         with open(filename, 'w') as f:
             yaml.dump(out_dict, stream=f)
-- 
2.43.0


From 5b7e403488cc4e8f1e2649daf66de79e36f48f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:23 +0000
Subject: [PATCH 58/87] fix: region and outbase of a copied configuration are
 those of the original

---
 redmapper/configuration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 76001d6..e495611 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -581,7 +581,9 @@ class Configuration(object):
         """
         Return a copy of the configuration struct
         """
-        return copy.copy(self)
+        newconf = copy.copy(self)
+        newconf.d = copy.copy(self.d)
+        return newconf
 
     def start_file_logging(self, filename=None):
         """
-- 
2.43.0


From dae0b0cc6fab668c0e1b4a43fca39a2683adec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:23 +0000
Subject: [PATCH 59/87] fix: slope of the central magnitude relation read from
 the wrong column

---
 redmapper/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index e495611..db115cb 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -834,7 +834,7 @@ class Configuration(object):
         # New wcen files also record the phi1 information
         if 'phi1_mmstar_m' in wcen[0].dtype.names:
             vals['phi1_mmstar_m'] = wcen[0]['phi1_mmstar_m']
-            vals['phi1_mmstar_slope'] = wcen[0]['phi1_mmstar_m']
+            vals['phi1_mmstar_slope'] = wcen[0]['phi1_mmstar_slope']
             vals['phi1_msig_m'] = wcen[0]['phi1_msig_m']
             vals['phi1_msig_slope'] = wcen[0]['phi1_msig_slope']
 
-- 
2.43.0


From 718c271122934e5d28e83ca3c74f32b0e0ca2e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:23 +0000
Subject: [PATCH 60/87] fix: logging to a file cannot be started again after it
 was stopped

---
 redmapper/configuration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index db115cb..9199a20 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -623,6 +623,8 @@ class Configuration(object):
             handler.close()
             self.logger.removeHandler(handler)
 
+        self._file_logging_started = False
+
     def _reset_vars(self):
         """
         Internal method to reset variables to defaults
-- 
2.43.0


From 4b742d1f6d538cf651ae977b57e6aaa9c3ab6663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:23 +0000
Subject: [PATCH 61/87] fix: logging to a file without a sub-region raises
 IndexError

---
 redmapper/configuration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 9199a20..cbcb5de 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -605,8 +605,11 @@ class Configuration(object):
             os.makedirs(os.path.join(self.outpath, self.logpath), exist_ok=True)
 
         if filename is None:
-            logfilename = os.path.join(self.outpath, self.logpath,
-                                       f'redmapper_{self.d.outbase}_{self.d.hpix[0]:04}.log')
+            if len(self.d.hpix) > 0:
+                logname = f'redmapper_{self.d.outbase}_{self.d.hpix[0]:04}.log'
+            else:
+                logname = f'redmapper_{self.d.outbase}.log'
+            logfilename = os.path.join(self.outpath, self.logpath, logname)
         else:
             logfilename = os.path.join(self.outpath, self.logpath, os.path.basename(filename))
 
-- 
2.43.0


From 6de58915659cb3dd957f89273cafbfca54e0ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:28 +0000
Subject: [PATCH 62/87] fix: configuration without softening parameters can not
 be written to a file

---
 redmapper/configuration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index cbcb5de..7bfa820 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -961,7 +961,9 @@ class Configuration(object):
             if isinstance(type(self).__dict__[key], ConfigField):
                 if type(self).__dict__[key]._isArray:
                     # Convert all elements to python types and make a list
-                    out_dict[key] = np.ndarray.tolist(getattr(self, key))
+                    # (Arrays that are not set are left out)
+                    if getattr(self, key) is not None:
+                        out_dict[key] = np.ndarray.tolist(getattr(self, key))
                 else:
                     # Try to use numpy to convert to scalar; if it doesn't work then
                     # it's not numpy and we can use the value directly
-- 
2.43.0


From b53f8e38c2dda251656d28b1bf74fc4f6806f642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:57 +0000
Subject: [PATCH 63/87] fix: background of a catalog that is not pixelized is
 empty

---
 redmapper/background.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index 7e25a82..b9f1c06 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -493,14 +493,14 @@ class BackgroundGenerator(object):
         ctr = 0
         p = 0
         # This covers both loops
-        while ((ctr < ngal) and (p < npix)):
+        while ((ctr < ngal) and (p < npix or not self.config.galfile_pixelized)):
             # Read in a section of the galaxies, or the pixel
             if not self.config.galfile_pixelized:
                 lo = ctr
                 hi = np.clip(ctr + self.natatime, None, ngal)
 
                 gals = GalaxyCatalog.from_fits_file(self.config.galfile, rows=np.arange(lo, hi))
-                ctr = hi + 1
+                ctr = hi
             else:
                 if master.ngals[subreg_indices[p]] == 0:
                     p += 1
-- 
2.43.0


From 6f2a2d85e5b466dde995cf3a706f1a8ed36bda02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:57 +0000
Subject: [PATCH 64/87] fix: background with another number of chisq bins can
 not be read

---
 redmapper/background.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index b9f1c06..f569068 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -68,7 +68,7 @@ class Background(object):
 
         # Set up some arrays to populate
         sigma_g_new = np.zeros((nrefmagbins, nchisqbins, nzbins))
-        sigma_lng_new = np.zeros((nrefmagbins, nchisqbins, nzbins))
+        sigma_lng_new = np.zeros((nrefmagbins, nlnchisqbins, nzbins))
 
         # Do linear interpolation to get the sigma_g value
         # between the raw background points.
@@ -77,6 +77,7 @@ class Background(object):
             for j in range(nchisqbins):
                 sigma_g_new[:,j,i] = np.interp(refmagbins, obkg.refmagbins, obkg.sigma_g[:,j,i])
                 sigma_g_new[:,j,i] = np.where(sigma_g_new[:,j,i] < 0, 0, sigma_g_new[:,j,i])
+            for j in range(nlnchisqbins):
                 sigma_lng_new[:,j,i] = np.interp(refmagbins, obkg.refmagbins, obkg.sigma_lng[:,j,i])
                 sigma_lng_new[:,j,i] = np.where(sigma_lng_new[:,j,i] < 0, 0, sigma_lng_new[:,j,i])
 
-- 
2.43.0


From bc36e0a3690cc62600e2c2b40a61d78a922af5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:57 +0000
Subject: [PATCH 65/87] fix: color background is not normalized unless its bin
 size is 0.1

---
 redmapper/color_background.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/color_background.py b/redmapper/color_background.py
index 86aec8b..07de3f9 100644
--- a/redmapper/color_background.py
+++ b/redmapper/color_background.py
@@ -92,7 +92,7 @@ class ColorBackground(object):
                 for j in range(nrefmagbins):
                     bc_new[j, :] = np.clip(interpol(bc[j, :], obkg.colbins, colbins), 0.0, None)
 
-                n = np.sum(bc, axis=1, dtype=np.float64) * (colbinsize / obkg.colbinsize)
+                n = np.sum(bc, axis=1, dtype=np.float64) * obkg.colbinsize
 
                 sigma_g = bc_new.copy()
                 for j in range(ncolbins):
-- 
2.43.0


From 4512bd3c0af0a13f7e224c6067adfa24129ce4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:57 +0000
Subject: [PATCH 66/87] fix: background of a galaxy with zero chisq is that of
 the largest chisq

---
 redmapper/background.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index f569068..db75d1e 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -150,7 +150,7 @@ class Background(object):
            Sigma_g(x) for input values
         """
         zmin = self.zbins[0]
-        chisqindex = np.searchsorted(self.chisqbins, chisq) - 1
+        chisqindex = np.clip(np.searchsorted(self.chisqbins, chisq) - 1, 0, None)
         refmagindex = np.searchsorted(self.refmagbins, refmag) - 1
         # Look into changing to searchsorted
         ind = np.clip(np.round((z-zmin)/(self.zbins[1]-zmin)),0, self.zbins.size-1).astype(np.int32)
-- 
2.43.0


From 89abbff09667f22cd4dc2fe487c430921bc5b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:14 +0000
Subject: [PATCH 67/87] fix: magnitude limit of the background depends on the
 number of processes

---
 redmapper/background.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index db75d1e..4f122d0 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -441,9 +441,10 @@ class BackgroundGenerator(object):
         starttime = time.time()
 
         zbins_use = self.zbins[zbinmark]
-        zrange_use = np.array([zbins_use[0], zbins_use[-1] + self.config.bkg_zbinsize])
 
         # We need to load in the red sequence structure -- just in the specific redshift range
+        # (including the upper edge of the last bin, which sets its magnitude limit)
+        zrange_use = np.array([zbins_use[0], zbins_use[-1] + 2. * self.config.bkg_zbinsize])
         zredstr = RedSequenceColorPar(self.config.parfile, zrange=zrange_use)
 
         zredstrbinsize = zredstr.z[1] - zredstr.z[0]
-- 
2.43.0


From 0dac18674384ce373975334ab796076c945a7d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:35 +0000
Subject: [PATCH 68/87] fix: randoms placed beyond the volume limit where the
 map is partly covered

---
 redmapper/randoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 5abc9b6..5f2da0f 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -114,6 +114,7 @@ class GenerateRandoms(object):
             zz = self.redmapper_cat.z_lambda[r]
             ll = self.redmapper_cat.Lambda[r]
             ii = self.redmapper_cat.mem_match_id[r]
+            zmax = zmax[gd]
 
             # zctr counts the number of successfully placed randoms
             # while i counts index through tempcat, many of which will be rejected.
-- 
2.43.0


From deb7bad4c34ec4c527ff5bc91d932897762cbac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:49 +0000
Subject: [PATCH 69/87] fix: redmagic randoms cannot be made from file names

---
 redmapper/redmagic/redmagic_randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/redmagic/redmagic_randoms.py b/redmapper/redmagic/redmagic_randoms.py
index bc78b6d..4601ebe 100644
--- a/redmapper/redmagic/redmagic_randoms.py
+++ b/redmapper/redmagic/redmagic_randoms.py
@@ -35,14 +35,14 @@ class RedmagicGenerateRandoms(object):
             self.vlim_mask = vlim_mask_or_file
         elif isinstance(vlim_mask_or_file, str):
             # This 0.2 is a dummy value
-            self.vlim_mask = VolumeLimitMask(config, 0.2, vlimfile=self.vlim_mask_or_file)
+            self.vlim_mask = VolumeLimitMask(config, 0.2, vlimfile=vlim_mask_or_file)
         else:
             raise RuntimeError("vlim_mask_or_file must be a redmapper.VolumeLimitMask or a filename")
 
         if isinstance(redmagic_cat_or_file, GalaxyCatalog):
             self.redmagic_cat = redmagic_cat_or_file
         elif isinstance(redmagic_cat_or_file, str):
-            self.redmagic_cat = GalaxyCatalog.from_fits_file(redmagic_file)
+            self.redmagic_cat = GalaxyCatalog.from_fits_file(redmagic_cat_or_file)
         else:
             raise RuntimeError("redmagic_cat_or_file must be a redmapper.GalaxyCatalog")
 
-- 
2.43.0


From 1ee21d07b34eaf1a67ed7a59c696a7941a0b5daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:09 +0000
Subject: [PATCH 70/87] fix: weights of the redmagic randoms are all zero

---
 redmapper/redmagic/redmagic_randoms.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/redmapper/redmagic/redmagic_randoms.py b/redmapper/redmagic/redmagic_randoms.py
index 4601ebe..153c8ab 100644
--- a/redmapper/redmagic/redmagic_randoms.py
+++ b/redmapper/redmagic/redmagic_randoms.py
@@ -80,9 +80,6 @@ class RedmagicGenerateRandoms(object):
 
         randcat = Catalog(np.zeros(nrandoms, dtype=dtype))
 
-        # Not used at the moment
-        randcat.weight[:] = 1.0
-
         while (n_left > 0):
             n_gen = np.clip(n_left * 3, min_gen, max_gen)
             ra_rand, dec_rand = healsparse.make_uniform_randoms(self.vlim_mask.sparse_vlimmap,
@@ -103,6 +100,8 @@ class RedmagicGenerateRandoms(object):
             tempcat.ra = ra_rand[gd]
             tempcat.dec = dec_rand[gd]
             tempcat.z[:] = -1.0
+            # Not used at the moment
+            tempcat.weight[:] = 1.0
 
             zz = rng.choice(self.redmagic_cat.zredmagic, size=gd.size)
             zmax = zmax[gd]
-- 
2.43.0


From 34c29bb54dbe64e0f39d715bc899803c55cd08b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:24 +0000
Subject: [PATCH 71/87] fix: weighted randoms of another redshift range replace
 those of the full one

---
 redmapper/randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 5f2da0f..51bcf77 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -279,8 +279,8 @@ class RandomWeigher(object):
         if zrange is None:
             zrange = np.array([self.config.zrange[0], self.config.zrange[1]])
 
-        zname = 'z%03d-%03d' % (int(self.config.zrange[0]*100),
-                                int(self.config.zrange[1]*100))
+        zname = 'z%03d-%03d' % (int(zrange[0]*100),
+                                int(zrange[1]*100))
         vlimname = 'vl%02d' % (int(self.vlim_lstar*10))
         if lambdabin is None:
             lamname = 'lgt%03d' % (int(minlambda))
-- 
2.43.0


From 1928209a2cc6e63562ad797d7dc1df981bfecac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:50 +0000
Subject: [PATCH 72/87] fix: area of a richness bin leaves out the points at
 its upper edge

---
 redmapper/randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 51bcf77..27e87d1 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -382,12 +382,12 @@ class RandomWeigher(object):
             gd, = np.where((self.randcat.lambda_in[alluse[st]]/self.randcat.scaleval[alluse[st]] > minlambda) &
                            (self.randcat.maskfrac[alluse[st]] < self.config.max_maskfrac) &
                            (self.randcat.lambda_in[alluse[st]] > lambdabin[0]) &
-                           (self.randcat.lambda_in[alluse[st]] < lambdabin[1]))
+                           (self.randcat.lambda_in[alluse[st]] <= lambdabin[1]))
         else:
             gd, = np.where((self.randcat.lambda_in[alluse[st]] > minlambda) &
                            (self.randcat.maskfrac[alluse[st]] < self.config.max_maskfrac) &
                            (self.randcat.lambda_in[alluse[st]] > lambdabin[0]) &
-                           (self.randcat.lambda_in[alluse[st]] < lambdabin[1]))
+                           (self.randcat.lambda_in[alluse[st]] <= lambdabin[1]))
         ind2 = np.searchsorted(self.randcat.z[alluse[st[gd]]], zbins)
 
         xvals = (zbins[0: -2] + zbins[1: -1])/2.
-- 
2.43.0


From 3e6e2b7871680c77b503baca0cbbeccdea09dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:20 +0000
Subject: [PATCH 73/87] fix: split_randoms raises NameError

---
 redmapper/randoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 27e87d1..abe5805 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -1,6 +1,7 @@
 """Classes for generating redmapper randoms.
 """
 
+import os
 import fitsio
 import esutil
 import re
-- 
2.43.0


From 78a49be3ed5ffee6a345aeee159b5c22bd75f317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:32 +0000
Subject: [PATCH 74/87] fix: log file stays open after a redmagic run without
 randoms

---
 redmapper/redmagic/redmagictask.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/redmagic/redmagictask.py b/redmapper/redmagic/redmagictask.py
index 107b243..e6d0774 100644
--- a/redmapper/redmagic/redmagictask.py
+++ b/redmapper/redmagic/redmagictask.py
@@ -149,6 +149,7 @@ l           Output path.  Default is None, use same absolute
         # Need a check on when to kick out
         if (n_randoms is not None and n_randoms == 0):
             # We are not generating randoms
+            self.config.stop_file_logging()
             return
 
         # Random generation
-- 
2.43.0


From 8d6092dfdd921fde3bb96a9f8b13f0928f88419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:33 +0000
Subject: [PATCH 75/87] fix: redmagic calibration looks for the configuration
 of its run in the working directory

---
 redmapper/redmagic/redmagic_calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmagic/redmagic_calibrate.py b/redmapper/redmagic/redmagic_calibrate.py
index cb37933..5ac8c6e 100644
--- a/redmapper/redmagic/redmagic_calibrate.py
+++ b/redmapper/redmagic/redmagic_calibrate.py
@@ -711,5 +711,5 @@ class RedmagicCalibrator(object):
 
         if do_run:
             # Call the redmagic runner here.
-            run_redmagic = RunRedmagicTask(runfile)
+            run_redmagic = RunRedmagicTask(self.runfile)
             run_redmagic.run()
-- 
2.43.0


From 667515231a69714107a10abf66d7cabf0f9bd83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:33 +0000
Subject: [PATCH 76/87] fix: redmagic densities fit with corrected samples when
 they are not to be corrected

---
 redmapper/redmagic/redmagic_calibrate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redmapper/redmagic/redmagic_calibrate.py b/redmapper/redmagic/redmagic_calibrate.py
index 5ac8c6e..82c0e83 100644
--- a/redmapper/redmagic/redmagic_calibrate.py
+++ b/redmapper/redmagic/redmagic_calibrate.py
@@ -158,7 +158,10 @@ class RedmagicParameterFitter(object):
             spl = CubicSpline(self._corrnodes, biaspars)
             self._zredmagic = self._z - spl(self._z)
 
-            self._zredmagic_samp = self._zsamp - spl(self._z)
+            if self._ab_apply:
+                self._zredmagic_samp = self._zsamp - spl(self._z)
+            else:
+                self._zredmagic_samp = self._zsamp.copy()
 
             spl = CubicSpline(self._corrnodes, eratiopars)
             self._zredmagic_e = self._z_err * spl(self._z)
-- 
2.43.0


From b6792f122e5a2f05dd20821066c2403aa65092ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:51 +0000
Subject: [PATCH 77/87] fix: name all input files of a calibration by absolute
 paths in the configuration of the run

---
 redmapper/calibration/calibrate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/calibration/calibrate.py b/redmapper/calibration/calibrate.py
index a052da8..6e82153 100644
--- a/redmapper/calibration/calibrate.py
+++ b/redmapper/calibration/calibrate.py
@@ -216,6 +216,10 @@ class RedmapperCalibrator(object):
         # Make sure we have absolute paths for everything that is defined
         self.config.galfile = os.path.abspath(self.config.galfile)
         self.config.specfile = os.path.abspath(self.config.specfile)
+        for name in ['specfile_train', 'maskfile', 'depthfile', 'halofile', 'randfile']:
+            if getattr(self.config, name) is not None:
+                setattr(self.config, name, os.path.abspath(getattr(self.config, name)))
+        self.config.vlim_depthfiles = [os.path.abspath(f) for f in self.config.vlim_depthfiles]
 
         outbase_cal = self.config.outbase
 
-- 
2.43.0


From 4ff1260b856df42bffb21ab18dbb31dbcefac0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:51 +0000
Subject: [PATCH 78/87] fix: check all corrected redshifts for negative values,
 not only that of the last cluster

---
 redmapper/calibration/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/calibration/calibrate.py b/redmapper/calibration/calibrate.py
index 6e82153..b27de9f 100644
--- a/redmapper/calibration/calibrate.py
+++ b/redmapper/calibration/calibrate.py
@@ -532,7 +532,7 @@ class RedmapperCalibrationIteration(object):
                 cluster.z_lambda_e = zlam_e
 
             # Check for negative values... this is a minimal check
-            test, = np.where(cluster.z_lambda < 0.0)
+            test, = np.where(cat.z_lambda < 0.0)
             if (test.size > 0):
                 raise RuntimeError("z_lambda correction calibration totally failed, and is yielding negative redshifts.  "
                                    "Likely there is a configuration error, see config.calib_zlambda_minlambda and "
-- 
2.43.0


From 0cd32bd85aa0d0f1dae2d38866ceea845a93724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:52 +0000
Subject: [PATCH 79/87] fix: write the red galaxies after their model, so that
 an interrupted calibration can be restarted

---
 redmapper/calibration/selectspecred.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/redmapper/calibration/selectspecred.py b/redmapper/calibration/selectspecred.py
index 0875a31..6230b1d 100644
--- a/redmapper/calibration/selectspecred.py
+++ b/redmapper/calibration/selectspecred.py
@@ -210,11 +210,9 @@ class SelectSpecRedGalaxies(object):
                                 self.config.calib_redspec_nsig * np.sqrt(galcolor_err[u, j]**2. + sc**2.)))
                 mark[u[gd]] = True
 
-        # Output the red galaxies
+        # Select the red galaxies
         use, = np.where(mark)
 
-        gals.to_fits_file(self.config.redgalfile, indices=use, clobber=True)
-
         # Output the model
         model = Entry(np.zeros(1, dtype=[('nodes', 'f4', nodes.size),
                                          ('meancol', 'f4', meancol.shape),
@@ -229,6 +227,10 @@ class SelectSpecRedGalaxies(object):
 
         model.to_fits_file(self.config.redgalmodelfile, clobber=True)
 
+        # Output the red galaxies.  These come last, because this file is taken as
+        # proof that this step is done when a calibration is restarted.
+        gals.to_fits_file(self.config.redgalfile, indices=use, clobber=True)
+
         # And make some plots!
         import matplotlib.pyplot as plt
 
-- 
2.43.0


From ba7771ac672016ac265e535cfc78e9b5191baaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:52 +0000
Subject: [PATCH 80/87] fix: give the color background its name only when it is
 complete

---
 redmapper/color_background.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/redmapper/color_background.py b/redmapper/color_background.py
index 07de3f9..f1210ed 100644
--- a/redmapper/color_background.py
+++ b/redmapper/color_background.py
@@ -371,6 +371,11 @@ class ColorBackgroundGenerator(object):
         else:
             areas = np.zeros(refmagbins.size) + self.config.area
 
+        # The file only gets its name when all parts are written, so that a part
+        # of it is not taken for the whole when a calibration is restarted.
+        tempfile = os.path.join(os.path.dirname(self.config.bkgfile_color),
+                                '.%d_%s' % (os.getpid(), os.path.basename(self.config.bkgfile_color)))
+
         for i in range(ncol):
             for j in range(i, ncol):
                 if (i == j):
@@ -501,7 +506,9 @@ class ColorBackgroundGenerator(object):
                 else:
                     startClobber = False
 
-                fitsio.write(self.config.bkgfile_color, outstr, extname=extname, header=hdr, clobber=startClobber)
+                fitsio.write(tempfile, outstr, extname=extname, header=hdr, clobber=startClobber)
+
+        os.replace(tempfile, self.config.bkgfile_color)
 
 
 
-- 
2.43.0


From 0cb7d49e934242f181262d92f1a1c9f15d4f37a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:52 +0000
Subject: [PATCH 81/87] fix: save the red-sequence parameters under their name
 only with the corrections

---
 redmapper/calibration/redsequencecal.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/redmapper/calibration/redsequencecal.py b/redmapper/calibration/redsequencecal.py
index 2b02802..1522222 100644
--- a/redmapper/calibration/redsequencecal.py
+++ b/redmapper/calibration/redsequencecal.py
@@ -194,12 +194,17 @@ class RedSequenceCalibrator(object):
         # Compute volume factor
         self._calc_volume_factor(self.config.zrange[1])
 
-        # Write out the parameter file
-        self.save_pars(self.config.parfile, clobber=False)
+        # Write out the parameters to a temporary file; the parfile itself must
+        # only be there with the corrections, because it is taken as proof that
+        # this step is done when a calibration is restarted.
+        temp_parfile = os.path.join(os.path.dirname(self.config.parfile),
+                                    '.%d_%s' % (os.getpid(), os.path.basename(self.config.parfile)))
+        self.save_pars(temp_parfile, clobber=True)
 
         # Compute zreds without corrections
         # Later will want this parallelized, I think
-        self._calc_zreds(gals, do_correction=False)
+        self._calc_zreds(gals, do_correction=False, parfile=temp_parfile)
+        os.remove(temp_parfile)
 
         # Compute correction (mode1)
         self._calc_corrections(gals)
@@ -207,7 +212,7 @@ class RedSequenceCalibrator(object):
         # Compute correction (mode2)
         self._calc_corrections(gals, mode2=True)
 
-        # And re-save the parameter file
+        # And save the parameter file
         self.save_pars(self.config.parfile, clobber=True)
 
         # Recompute zreds with corrections
@@ -930,7 +935,7 @@ class RedSequenceCalibrator(object):
 
         self.pars.to_fits_file(filename, header=hdr, clobber=clobber)
 
-    def _calc_zreds(self, gals, do_correction=True):
+    def _calc_zreds(self, gals, do_correction=True, parfile=None):
         """
         Calculate the zreds for a set of galaxies, using the newly fit model.
 
@@ -940,10 +945,12 @@ class RedSequenceCalibrator(object):
            Galaxy catalog being fit
         do_corrections: `bool`, optional
            Do redshift afterburner corrections?  Default is True.
+        parfile: `str`, optional
+           Parameter file.  Default is None, which uses self.config.parfile.
         """
 
         # This is temporary
-        zredstr = RedSequenceColorPar(self.config.parfile)
+        zredstr = RedSequenceColorPar(self.config.parfile if parfile is None else parfile)
 
         zredc = ZredColor(zredstr, do_correction=do_correction)
 
-- 
2.43.0


From 3e503426169100810b49cca5d6dd6df4579e3082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:12 +0000
Subject: [PATCH 82/87] fix: redmapper_batch uses hpgeom, as the rest of the
 package, and not the undeclared healpy

---
 bin/redmapper_batch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/redmapper_batch.py b/bin/redmapper_batch.py
index 473aae4..f00b55c 100644
--- a/bin/redmapper_batch.py
+++ b/bin/redmapper_batch.py
@@ -8,7 +8,7 @@ from __future__ import division, absolute_import, print_function
 import os
 import argparse
 import yaml
-import healpy as hp
+import hpgeom as hpg
 import numpy as np
 import glob
 
@@ -154,8 +154,8 @@ jobname = '%s_%s' % (config.outbase, jobtype)
 
 tab = redmapper.Entry.from_fits_file(config.galfile)
 
-theta, phi = hp.pix2ang(tab.nside, tab.hpix)
-hpix_run = np.unique(hp.ang2pix(nside, theta, phi))
+theta, phi = hpg.pixel_to_angle(tab.nside, tab.hpix, lonlat=False, nest=False)
+hpix_run = np.unique(hpg.angle_to_pixel(nside, theta, phi, lonlat=False, nest=False))
 
 # Make the batch script in a "jobs" directory
 
-- 
2.43.0


From 125045a3137533f664acf5aafa1d4e31a7f9f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:12 +0000
Subject: [PATCH 83/87] fix: the memory prediction groups the galaxy pixels by
 the pixel that contains them

---
 redmapper/pipeline/mempredict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/pipeline/mempredict.py b/redmapper/pipeline/mempredict.py
index c10f6af..ad337ca 100644
--- a/redmapper/pipeline/mempredict.py
+++ b/redmapper/pipeline/mempredict.py
@@ -91,7 +91,7 @@ class MemPredict(object):
 
         theta, phi = hpg.pixel_to_angle(tab.nside, tab.hpix, lonlat=False, nest=False)
         for i, nside in enumerate(nsides):
-            hpix_run = hpg.pixel_to_angle(nside, theta, phi, lonlat=False, nest=False)
+            hpix_run = hpg.angle_to_pixel(nside, theta, phi, lonlat=False, nest=False)
 
             h, rev = esutil.stat.histogram(hpix_run, rev=True)
 
-- 
2.43.0


From 24fa7a6613bc9625ad0bc9831a91aacdb5e38fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:22 +0000
Subject: [PATCH 84/87] fix: redmapper_batch never overwrites a previous job
 file

---
 bin/redmapper_batch.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bin/redmapper_batch.py b/bin/redmapper_batch.py
index f00b55c..08bb1c8 100644
--- a/bin/redmapper_batch.py
+++ b/bin/redmapper_batch.py
@@ -10,7 +10,6 @@ import argparse
 import yaml
 import hpgeom as hpg
 import numpy as np
-import glob
 
 import redmapper
 import redmapper.parsl_templates as parsl_templates
@@ -165,12 +164,14 @@ jobpath = os.path.join(cwd, 'jobs')
 if not os.path.isdir(jobpath):
     os.makedirs(jobpath)
 
-# Will want to check for previous (failed) jobs
+# Will want to check for previous (failed) jobs, which must not be overwritten
 if batchconfig[batchmode]['batch'] == 'parsl':
-    test = glob.glob(os.path.join(jobpath, '%s_?.py' % (jobname)))
+    jobext = 'py'
 else:
-    test = glob.glob(os.path.join(jobpath, '%s_?.job' % (jobname)))
-index = len(test)
+    jobext = 'job'
+index = 0
+while os.path.isfile(os.path.join(jobpath, '%s_%d.%s' % (jobname, index + 1, jobext))):
+    index += 1
 
 need_maskgals = False
 
-- 
2.43.0


From 9cf43e178107670d4ce127ddb0003f3480a0b2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:45 +0000
Subject: [PATCH 85/87] fix: the red sequence can be calibrated without a color
 template

---
 redmapper/calibration/redsequencecal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/calibration/redsequencecal.py b/redmapper/calibration/redsequencecal.py
index 1522222..0dea9c5 100644
--- a/redmapper/calibration/redsequencecal.py
+++ b/redmapper/calibration/redsequencecal.py
@@ -909,7 +909,7 @@ class RedSequenceCalibrator(object):
             rg = RedGalInitialColors(self.config.calib_redgal_template)
             zmax = rg.zmax
         else:
-            zmax = None
+            zmax = np.inf
 
         hdr = fitsio.FITSHDR()
         hdr['NCOL'] = self.config.nmag - 1
-- 
2.43.0


From d93f10b516897fd17071b5111b8058b4a6fc90d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:15 +0000
Subject: [PATCH 86/87] fix: the color training uses the configured intrinsic
 scatter

---
 redmapper/run_colormem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/run_colormem.py b/redmapper/run_colormem.py
index 898bcfd..5d91622 100644
--- a/redmapper/run_colormem.py
+++ b/redmapper/run_colormem.py
@@ -134,7 +134,8 @@ class RunColormem(ClusterRunner):
             raise RuntimeError("Programmer error with illegal mode")
 
         lam = cluster.calc_richness_fit(self.mask, mode, calc_err=False,
-                                        centcolor_in=cluster.redcolor[mode])
+                                        centcolor_in=cluster.redcolor[mode],
+                                        sigint=self.config.calib_colormem_sigint[m])
 
         ind = np.argmin(cluster.neighbors.r)
         cluster.p_bcg = cluster.neighbors.pmem[ind]
-- 
2.43.0


From 5f6265b14f5dceaf0a36c932058e9926cc26a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:35 +0000
Subject: [PATCH 87/87] fix: the local background takes the mask galaxies at
 the redshift of the cluster

---
 redmapper/cluster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index bc619dd..d91fcc9 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -421,12 +421,12 @@ class Cluster(Entry):
             else:
                 maskgals_depth = limpars['LIMMAG']
 
-        sigma_g_maskgals = self.bkg.sigma_g_lookup(self._redshift, mask.maskgals.chisq, mask.maskgals.refmag)
+        sigma_g_maskgals = self.bkg.sigma_g_lookup(self._redshift, mask.maskgals.chisq, maskgals_refmag)
 
-        bright_enough, = np.where((mask.maskgals.refmag < maxmag) & (np.isfinite(sigma_g_maskgals))
+        bright_enough, = np.where((maskgals_refmag < maxmag) & (np.isfinite(sigma_g_maskgals))
 &
                                   (mask.maskgals.chisq_pdf > 0.0) & (mask.maskgals.lum_pdf > 0.0) &
-                                  (mask.maskgals.refmag < maskgals_depth))
+                                  (maskgals_refmag < maskgals_depth))
 
         # Predicted number density according to global bkg
         prediction = np.sum(sigma_g_maskgals[bright_enough].astype(np.float64) / (mask.maskgals.chisq_pdf[bright_enough].astype(np.float64) * mask.maskgals.lum_pdf[bright_enough].astype(np.float64))) / float(bright_enough.size)
-- 
2.43.0

