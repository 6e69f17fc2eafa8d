From 4d37e5cc7b1f9a710ddf910ab81784858bb05325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:54 +0000
Subject: [PATCH 01/71] fix: OnOff.siglml/sigmp truncate results to integers
 for integer-array rates

---
 package/inference/count/onoff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index 03efa77..bf5c053 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -9,7 +9,7 @@ By Tom Loredo
 """
 
 
-from numpy import zeros_like
+from numpy import zeros
 from ._cbmlike import sigctp, psigc, slml_offset, vslml_offset, slmlike, \
     vslmlike, slmliked
 
@@ -106,7 +106,7 @@ class OnOff(object):
         except TypeError:
             if len(s.shape) != 1:
                 raise ValueError('sigll handles only 1-D arrays!')
-            llvals = zeros_like(s)
+            llvals = zeros(len(s))  # float even for integer s
             for i, sval in enumerate(s):
                 llvals[i], nt, err = slmlike(sval, self.on_cts, self.on_intvl,
                                              self.off_cts, self.off_intvl, self.offset, self.cutoff)
@@ -164,7 +164,7 @@ class OnOff(object):
         except TypeError:
             if len(s.shape) != 1:
                 raise ValueError('sigll handles only 1-D arrays!')
-            llvals = zeros_like(s)
+            llvals = zeros(len(s))  # float even for integer s
             for i, sval in enumerate(s):
                 llvals[i] = psigc(sval, self.on_intvl, self.p_signal)
             return llvals
-- 
2.43.0


From e851dfe6386f3bf1577b71bb652c802fd39961dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:54 +0000
Subject: [PATCH 02/71] fix: OnOff.pnsig(0) returned the whole probability
 array

---
 package/inference/count/onoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index bf5c053..11175d3 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -202,7 +202,7 @@ class OnOff(object):
         if self.p_signal is None:
             self.p_signal = sigctp(self.on_cts, self.on_intvl,
                                    self.off_cts, self.off_intvl)
-        if n:
+        if n is not None:
             if n < 0 or n > self.on_cts:
                 raise ValueError('Number of source counts must be <= on_cts!')
             return self.p_signal[n]
-- 
2.43.0


From eb36036ad6eb6348aeeccfd0060968da5cf4889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:54 +0000
Subject: [PATCH 03/71] fix: OnOff.pnsig returned a view, so callers could
 alter the cache

---
 package/inference/count/onoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index 11175d3..91f0504 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -207,7 +207,7 @@ class OnOff(object):
                 raise ValueError('Number of source counts must be <= on_cts!')
             return self.p_signal[n]
         else:
-            return self.p_signal[:]  # return copy so cache can't be altered
+            return self.p_signal.copy()  # return copy so cache can't be altered
 
 
 # Interim documentation for the underlying Fortran extension module.
-- 
2.43.0


From fed9025d16cae5ce0de0760acbf7b3d32c046d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:54 +0000
Subject: [PATCH 04/71] fix: ppois is NaN for large means (dm**n overflows
 while exp(-dm) underflows)

---
 package/inference/count/_cbmlike.f | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/package/inference/count/_cbmlike.f b/package/inference/count/_cbmlike.f
index 7c7d2e7..4751ac7 100644
--- a/package/inference/count/_cbmlike.f
+++ b/package/inference/count/_cbmlike.f
@@ -576,6 +576,11 @@ cf2py   intent(in) n, dm
             else
                 ppois = 0.
             endif
+        else if (dm .gt. 700.) then
+c---        dm**n may overflow and exp(-dm) underflow; work with logs.
+            dnfac = gammln(dble(n)+1.)
+            arg = n * log(dm) - dm - dnfac
+            ppois = exp(arg)
         else if (n .le. ntop) then
             dnfac = a(n+1)
             ppois = dm**n * exp(-dm) / dnfac
-- 
2.43.0


From ba226f7be591f98048e5cc32ab48b0d07a8293c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:51 +0000
Subject: [PATCH 05/71] fix: dllsteps/obsinfo alter the caller's mle and guess
 arrays in place

On failure (or when loglike raises) the mle was left displaced, and the
guess was always overwritten.
---
 package/inference/deriv/obsinfo.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/package/inference/deriv/obsinfo.py b/package/inference/deriv/obsinfo.py
index 74ab0b4..03874d0 100644
--- a/package/inference/deriv/obsinfo.py
+++ b/package/inference/deriv/obsinfo.py
@@ -3,6 +3,8 @@ obsinfo - Tools for calculating the observed Fisher information matrix
 from log-likelihood functions.
 """
 
+from numpy import array
+
 from ._obsinfo import pk_scales, ninfol
 
 __all__ = ['dllsteps', 'obsinfo']
@@ -23,6 +25,10 @@ def dllsteps(loglike, mle, guess, dll=1., maxll=None, maxiter=20, tol=0.01):
     maxiter =   maximum number of iterations
     tol     =   tolerance (% of dll) for convergence
     """
+    # Work with copies; pk_scales alters both arrays in place, and does not
+    # restore the mle if it fails.
+    mle = array(mle, dtype=float)
+    guess = array(guess, dtype=float)
     if maxll is None:
         maxll = loglike(mle)
     deltas, status = pk_scales(loglike, mle, maxll, dll, guess, maxiter, tol)
@@ -64,6 +70,7 @@ def obsinfo(loglike, mle, deltas, maxll=None, niter=2):
     # Note ninfol interprets # of iterations as # of sets of 2nd differences
     # to use, not # of Richardson extrapolation steps (i.e., #=1 corresponds
     # to plain 2nd differences, with no extrapolation).
+    mle = array(mle, dtype=float)  # ninfol alters it in place
     if maxll is None:
         maxll = loglike(mle)
     return ninfol(loglike, mle, maxll, deltas, niter+1)
-- 
2.43.0


From 554aa3e2a8e470bda37b2e240efd2dbe0aeb2958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 06/71] fix: HPD normalization dropped grid cells lying at the
 minimum density

A cell with both ends at the minimum value was not counted; a flat pdf
had zero norm.
---
 package/inference/grid/hpd.py     | 4 ++--
 package/inference/grid/hpdgrid.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index c783d9f..82b5833 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -128,7 +128,7 @@ class HPD1D(object):
             for i, x in enumerate(self.xvals):
                 self.spdf[i] = self.spdf[i]*x
         # Find the overall normalization for spdf.
-        self.snorm = qgt1d(self.spdf, self.spdf.min())*self.dx
+        self.snorm = qgt1d(self.spdf, -1.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.snorm) + self.max
         self.probs = []
@@ -243,7 +243,7 @@ class HPD2D(object):
             for j, y in enumerate(self.yvals):
                 self.spdf[:,j] = self.spdf[:,j]*y
         # Find the overall normalization for spdf.
-        self.norm = qgt2d(self.spdf, self.spdf.min())*self.dx*self.dy
+        self.norm = qgt2d(self.spdf, -1.)*self.dx*self.dy
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.norm) + self.max
         self.probs = []
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 5a4338c..fedcb7c 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -137,7 +137,7 @@ class HPDGrid1D(object):
             for i, x in enumerate(self.xvals):
                 self.spdf[i] = self.spdf[i]*x
         # Find the overall normalization for spdf.
-        self.snorm = qgt1d(self.spdf, self.spdf.min())*self.dx
+        self.snorm = qgt1d(self.spdf, -1.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.snorm) + self.max
         self.probs = []
@@ -261,7 +261,7 @@ class HPDGrid2D(object):
             for j, y in enumerate(self.yvals):
                 self.spdf[:,j] = self.spdf[:,j]*y
         # Find the overall normalization for spdf.
-        self.norm = qgt2d(self.spdf, self.spdf.min())*self.dx*self.dy
+        self.norm = qgt2d(self.spdf, -1.)*self.dx*self.dy
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.norm) + self.max
         self.probs = []
-- 
2.43.0


From eff3f678d9ab6fca96c2150fa0cfc3db396cbbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 07/71] fix: HPD boundaries on logarithmic grids used p(x)
 rather than p(log x)

---
 package/inference/grid/hpd.py     | 6 +++++-
 package/inference/grid/hpdgrid.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index 82b5833..73b2f96 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -177,7 +177,11 @@ class HPD1D(object):
         self.deltas.append(logratio)
         self.levels.append(self.max+logratio)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
-        bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
+        # For log steps, the density is that for log(x).
+        logdens = self.logpdf - self.max
+        if not self.linstep:
+            logdens = logdens + log(self.xvals)
+        bounds, nb, ok = xvalues(self.xvals, logdens, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index fedcb7c..23e2e17 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -187,7 +187,11 @@ class HPDGrid1D(object):
         self.deltas.append(logratio)
         self.levels.append(self.max+logratio)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
-        bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
+        # For log steps, the density is that for log(x).
+        logdens = self.logpdf - self.max
+        if not self.linstep:
+            logdens = logdens + log(self.xvals)
+        bounds, nb, ok = xvalues(self.xvals, logdens, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
-- 
2.43.0


From 47958c88cbad22ec59ccd36702bd0af854dcff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 08/71] fix: normal density ratios had a spurious dimension
 factor in the exponent

---
 package/inference/grid/hpd.py     | 6 +++---
 package/inference/grid/hpdgrid.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index 73b2f96..b038628 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -52,7 +52,7 @@ def prob2dens(nd, p):
     The n-dim normal PDF density bounding an HPD credible region of content p.
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)/rt2pi**nd
+    return exp(-0.5 * nsig**2)/rt2pi**nd
 
 
 def prob2ratio(nd, p):
@@ -61,7 +61,7 @@ def prob2ratio(nd, p):
     of content p (relative to the peak density).
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5 * nsig**2)
 
 
 def sig2ratio(nd, nsig):
@@ -69,7 +69,7 @@ def sig2ratio(nd, nsig):
     The relative normal PDF density bounding an HPD credible region
     spanning nsig std deviations (relative to the peak density).
     """
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5 * nsig**2)
 
 
 class HPD1D(object):
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 23e2e17..96c0d17 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -52,7 +52,7 @@ def prob2dens(nd, p):
     The n-dim normal PDF density bounding an HPD credible region of content p.
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)/rt2pi**nd
+    return exp(-0.5 * nsig**2)/rt2pi**nd
 
 
 def prob2ratio(nd, p):
@@ -61,7 +61,7 @@ def prob2ratio(nd, p):
     of content p (relative to the peak density).
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5 * nsig**2)
 
 
 def sig2ratio(nd, nsig):
@@ -69,7 +69,7 @@ def sig2ratio(nd, nsig):
     The relative normal PDF density bounding an HPD credible region
     spanning nsig std deviations (relative to the peak density).
     """
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5 * nsig**2)
 
 
 class HPDGrid1D(object):
-- 
2.43.0


From 91b178aa55627975415d7d3ec187438a257387a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 09/71] fix: HPD2D did not store yhi (typo)

---
 package/inference/grid/hpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index b038628..ac7f8e6 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -225,7 +225,7 @@ class HPD2D(object):
             self.dx = log(xhi/xlo)/(self.nx-1)
         else:
             raise ValueError('Invalid xstep type!')
-        self.ylo, selfyxhi = ylo, yhi
+        self.ylo, self.yhi = ylo, yhi
         self.ny = logpdf.shape[1]
         if ystep == 'linear' or ystep == 'lin':
             self.ylinstep = True
-- 
2.43.0


From 15cba19133bc2ef9de90657f8815f74004d4f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:39 +0000
Subject: [PATCH 10/71] fix: zbracket never finds a zero when it starts on a
 plateau

With f1 == f2 only the x2 side was ever expanded.  HPD critlevel failed
this way for pdfs of small dynamic range.
---
 package/inference/utils/numutils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index 71340db..06aece0 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -195,14 +195,18 @@ def zbracket(func, x1, x2, vals=None, args=None, maxtries=50, expand=1.6):
         tries += 1
         if f1*f2 < 0.:
             return x1, x2
-        if abs(f1) < abs(f2):
-            x1 += expand*(x1-x2)
+        # Expand the side nearer to zero; on a plateau (f1 == f2) neither side
+        # is, so expand both.
+        nearer1, nearer2 = abs(f1) <= abs(f2), abs(f2) <= abs(f1)
+        dx = expand*(x2-x1)
+        if nearer1:
+            x1 -= dx
             if args:
                 f1 = func(*(x1,)+args)
             else:
                 f1 = func(x1)
-        else:
-            x2 += expand*(x2-x1)
+        if nearer2:
+            x2 += dx
             if args:
                 f2 = func(*(x2,)+args)
             else:
-- 
2.43.0


From 5daba7a39b2334713aa6ec7a49a7a54c7e5f4422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:39 +0000
Subject: [PATCH 11/71] fix: xvalues wrote past xvals for an excess rising
 crossing

So an 11-boundary HPD region was returned with one boundary missing
instead of raising.
---
 package/inference/grid/_gridquad.f | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/package/inference/grid/_gridquad.f b/package/inference/grid/_gridquad.f
index 94366de..349021d 100644
--- a/package/inference/grid/_gridquad.f
+++ b/package/inference/grid/_gridquad.f
@@ -102,6 +102,10 @@ cf2py intent(out) xvals, nx, ok
 	do 20 i=1, n-1
 	    if (yarr(i) .lt. ycrit .and. yarr(i+1) .gt. ycrit) then
 	        nx = nx + 1
+	        if (nx .gt. nxvmax) then
+	            ok = .false.
+	            return
+	        endif
 	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
      *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
 	    else if (yarr(i+1) .lt. ycrit .and. yarr(i) .gt. ycrit) then
-- 
2.43.0


From fb68e6b766aab60dc9536d3563ce17d40b98e2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:39 +0000
Subject: [PATCH 12/71] fix: xvalues gave a NaN boundary next to a vanishing
 (log = -inf) pdf

---
 package/inference/grid/_gridquad.f | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/_gridquad.f b/package/inference/grid/_gridquad.f
index 349021d..60f5964 100644
--- a/package/inference/grid/_gridquad.f
+++ b/package/inference/grid/_gridquad.f
@@ -106,8 +106,9 @@ cf2py intent(out) xvals, nx, ok
 	            ok = .false.
 	            return
 	        endif
-	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
-     *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
+c---  Work from the high end so yarr(i) = -infinity is handled.
+	        xvals(nx) = xarr(i+1) - (xarr(i+1)-xarr(i)) *
+     *            (yarr(i+1) - ycrit) / (yarr(i+1) - yarr(i))
 	    else if (yarr(i+1) .lt. ycrit .and. yarr(i) .gt. ycrit) then
 	        nx = nx + 1
 	        if (nx .gt. nxvmax) then
-- 
2.43.0


From cfe94ae46403cb5453a2ab110be5e14287aa1d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 13/71] fix: iterating over a Grid1D raised TypeError

---
 package/inference/grid/grid1d.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 39f8fe7..7720a13 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -870,13 +870,8 @@ class Grid1D:
         return self.glist[i].point(indx)
 
     def __iter__(self):
-        i = 0
-        while 1:
-            try:
-                yield self.__getitem__[i]
-            except IndexError:
-                raise StopIteration
-            i += 1
+        for i in range(len(self)):
+            yield self[i]
 
     def firstpass(self, f, select=None, notify=None):
         """Apply func on the base grid."""
-- 
2.43.0


From e9b87badb078d09c071070d6e206021204e8b8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 14/71] fix: Grid1D.logtrapzd_mom without moments called a
 nonexistent method

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 7720a13..fff4caa 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -963,7 +963,7 @@ class Grid1D:
         the 1st and/or 2nd moments."""
 
         if not nmom:
-            return self.trapzd_log(select)
+            return self.logtrapzd(select)
 
         # Sum over the refined grids taking care to avoid overflows.
         vals = []
-- 
2.43.0


From 5a9b5c197e6baa42538562d48cde4a6c0911434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 15/71] fix: BasicGrid1D.vecfunc never recorded maxima (an
 empty list is false)

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index fff4caa..7239236 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -595,7 +595,7 @@ class BasicGrid1D:
 
         # Now look for local maxima, with special treatment for
         # possible "half peaks" at the ends.
-        if self.lml:
+        if self.lml is not None:
             for i in range(2,self.n):
                 if self.valSeq:
                     y3 = self.vals[i-2:i+1, select]
-- 
2.43.0


From 5ebb39e1d35ec4fe8dd2d28e6a717bfebbcbfdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 16/71] fix: BasicGrid1D.stepfunc did not use the exact right
 endpoint

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 7239236..0d529dc 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -514,7 +514,7 @@ class BasicGrid1D:
         for i in range(self.n):
             if i == self.n-1:  # Avoid roundoff error at the endpoint.
                 x = self.hi
-            if self.isLin:
+            elif self.isLin:
                 x = self.lo + i*self.step
             else:
                 x = self.lo * exp(i*self.step)
-- 
2.43.0


From aa690771e88afbeb55236c12e6f246bdcb3a2c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 17/71] fix: LabeledMaxList.__delitem__ took a spurious
 argument

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 0d529dc..40309ad 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -67,7 +67,7 @@ class LabeledMaxList:
     def __setitem__(self, n, val):
         self.list[n] = val
 
-    def __delitem__(self, n, val):
+    def __delitem__(self, n):
         del self.list[n]
 
     def __repr__(self):
-- 
2.43.0


From 16db5c343859b01ff8384a58b77cbe0eb508fbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 18/71] fix: LabeledMaxList.limitRange failed on an empty list

So Grid1D.refine(dynrange) failed when there were no maxima.
---
 package/inference/grid/grid1d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 40309ad..3401945 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -113,6 +113,8 @@ class LabeledMaxList:
         range.  This presumes the elements are the *logarithms* of the
         quantity of interest."""
 
+        if not self.list:
+            return
         logrange = log(dynrange)
         top = self.list[0][0]
         i = 1
-- 
2.43.0


From e761eb309d427437112fb6e512030476785eeb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 19/71] fix: PeakParams divided by zero for points with
 (x1-x0)/(x2-x0) = 1/sqrt(2)

---
 package/inference/grid/grid1d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 3401945..912c540 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -34,8 +34,9 @@ def PeakParams(x, y):
     alpha2 = alpha**2
     fac = 1. - 2.*alpha2
     a12 = y[0] - y[1]
-    C = alpha2/fac + a12/(a12-y[1]+y[2])
-    d = C*w*fac**2 / (2.*alpha*(1.-alpha) + C*(2.-4.*alpha)*fac)
+    # Dividing out fac keeps this finite for fac=0 (alpha=1/sqrt(2)).
+    b = a12/(a12-y[1]+y[2])
+    d = w*(alpha2 + b*fac) / (2.*alpha + b*(2.-4.*alpha))
     mean = x[0] + d
     alpha2 = w*alpha
     sig = alpha2*(0.5*alpha2 - d) / a12
-- 
2.43.0


From d8cfd686e87fbcfe7550aa58cd1726bec5f74ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 20/71] fix: updates of reverse-sense interval lists lost their
 upper bound

---
 package/inference/grid/grid1d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 912c540..76dbe55 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -284,8 +284,7 @@ class RefinedIntervalList1D:
             lo = max(lo, self.lo)
             hi = min(hi, self.hi)
         else:
-            lo = max(hi, self.lo)
-            hi = min(lo, self.hi)
+            lo, hi = max(hi, self.lo), min(lo, self.hi)
         if hi <= lo:
             raise ValueError("Interval does not overlap base interval!")
 
-- 
2.43.0


From 05971a9829630338931c2b21a6d947a17f598e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 21/71] fix: BasicInterval.resample left a stale step factor
 for log intervals

---
 package/inference/grid/grid1d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 76dbe55..27db088 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -184,6 +184,7 @@ class BasicInterval:
             self.step = (self.hi-self.lo) / (n-1.)
         else:
             self.step = log(self.hi/self.lo) / (n-1.)
+            self.fac = exp(self.step)
 
 
 ################################################################################
-- 
2.43.0


From c04e228a5ecb3c8dede52050609647e5c52ce3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 22/71] fix: refining a logarithmic Grid1D created linear
 subintervals

The step sizes then disagreed with the log grids built on them, leaving
subgrids without values.
---
 package/inference/grid/grid1d.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 27db088..fc8be6e 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -258,6 +258,14 @@ class RefinedIntervalList1D:
         self.ilist.insert(i, intvl)
         self.nint = self.nint + 1
 
+    def _interval(self, lo, hi, n):
+        """Create an interval with the same step type as the base."""
+
+        if self.isLin:
+            return BasicInterval(lo, hi, n, Lin)
+        else:
+            return BasicInterval(lo, hi, n, Log)
+
 #*** There could be an inconsistency from ignoring isPos...
     def _stepSize(self, lo, hi, n):
         """Calculate the step size for a candidate inserted interval."""
@@ -326,12 +334,12 @@ class RefinedIntervalList1D:
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m))
+                self._insert(nlo, self._interval(int_lo.lo, lo, m))
                 nlo = nlo + 1
-            self._insert(nlo, BasicInterval(lo, hi, n))
+            self._insert(nlo, self._interval(lo, hi, n))
             if int_lo.hi > hi:
                 m = self._numPts(hi, int_lo.hi, int_lo.step)
-                self._insert(nlo+1, BasicInterval(hi, int_lo.hi, m))
+                self._insert(nlo+1, self._interval(hi, int_lo.hi, m))
             self.merge()
             return
 
@@ -341,19 +349,19 @@ class RefinedIntervalList1D:
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m))
+                self._insert(nlo, self._interval(int_lo.lo, lo, m))
                 nlo = nlo + 1
                 nhi = nhi + 1        # Shift nhi since we're adding an intvl.
             m = self._numPts(lo, int_lo.hi, step)
-            self._insert(nlo, BasicInterval(lo, int_lo.hi, m))
+            self._insert(nlo, self._interval(lo, int_lo.hi, m))
             nlo = nlo + 1
         if step < int_hi.step:
             self._del(nhi)
             m = self._numPts(int_hi.lo, hi, step)
-            self._insert(nhi, BasicInterval(int_hi.lo, hi, m))
+            self._insert(nhi, self._interval(int_hi.lo, hi, m))
             if int_hi.hi > hi:
                 m = self._numPts(hi, int_hi.hi, int_hi.step)
-                self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m))
+                self._insert(nhi+1, self._interval(hi, int_hi.hi, m))
                 # We needn't update nhi here since range won't include it.
         for i in range(nlo, nhi):
             if self.ilist[i].step > step:
@@ -384,7 +392,7 @@ class RefinedIntervalList1D:
                 n = self.ilist[i].n + self.ilist[i+1].n - 1
                 self._del(i)
                 self._del(i)
-                self._insert(i, BasicInterval(lo, hi, n))
+                self._insert(i, self._interval(lo, hi, n))
                 self.cumpts[i] = self.cumpts[i+1]
                 del self.cumpts[-1]
             else:
-- 
2.43.0


From 399c4968371dadb9eb4af1b52bcd983de37034e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:34 +0000
Subject: [PATCH 23/71] fix: resolution test for log intervals compared a log
 step to a linear width

---
 package/inference/grid/grid1d.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index fc8be6e..bae8df4 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -319,9 +319,8 @@ class RefinedIntervalList1D:
         hi_int = int_hi.locate(hi)  # returns (i, lo, hi) of grid point pair
         if hi != hi_int[1]:  # if not lo, it's within the grid space; set to hi
             hi = hi_int[2]
-        # Test if resolved.  Use lo_int rather than hi_int, because if
-        # hi happens to hit an endpoint, hi_int's lo == its hi.
-        if 5*step > (lo_int[2]-lo_int[1]):  # resolved
+        # Test if resolved, in terms of the step (in log(x) for log intervals).
+        if 5*step > int_lo.step:  # resolved
             n = self._numPts(lo, hi, step)
         step = self._stepSize(lo, hi, n)
 
-- 
2.43.0


From 90c3998ae38016d7e7ec563b6731368cc663c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:46 +0000
Subject: [PATCH 24/71] fix: interval lookup at interval ends left roundoff
 slivers in refined lists

---
 package/inference/grid/grid1d.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index bae8df4..0a72c31 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -164,16 +164,20 @@ class BasicInterval:
         number and endpoints (i, l, h).  This assumes x is
         in fact in the interval.  If x=hi, then i=n, and l=h=hi."""
 
+        if x >= self.hi:
+            return (self.n-1, self.hi, self.hi)
+        # Roundoff must not move x < hi out of the last subinterval, nor make
+        # the outer subintervals miss the exact interval endpoints.
         if self.isLin:
-            i = int(floor((x-self.lo)/self.step))
+            i = min(int(floor((x-self.lo)/self.step)), self.n-2)
             l = self.lo + i*self.step
             h = l + self.step
         else:
-            i = int(floor(log(x/self.lo)/self.step))
+            i = min(int(floor(log(x/self.lo)/self.step)), self.n-2)
             l = self.lo * exp(i*self.step)
             h = l * self.fac
-        if (i == self.n-1):
-            h = l
+        if (i == self.n-2):
+            h = self.hi
         return (i, l, h)
 
     def resample(self, n):
-- 
2.43.0


From 7718930b89172aa567cb5184c43296e0fbb2e4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:48 +0000
Subject: [PATCH 25/71] fix: subgrids of negative logarithmic grids were always
 refused

---
 package/inference/grid/grid1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 0a72c31..c6f5db6 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -819,10 +819,10 @@ class BasicGrid1D:
             hnum = log(hi/self.lo)
             rhi = hnum/self.step
         nlo = int(round(rlo,2))
-        if abs(nlo*self.step-lnum) > 1.e-3*self.step:
+        if abs(nlo*self.step-lnum) > 1.e-3*abs(self.step):
             raise ValueError("lo doesn't match a grid pt!")
         nhi = int(round(rhi,2))
-        if abs(nhi*self.step-hnum) > 1.e-3*self.step:
+        if abs(nhi*self.step-hnum) > 1.e-3*abs(self.step):
             raise ValueError("hi doesn't match a grid pt!")
 
         # Make the grid and copy the data.
-- 
2.43.0


From 6a384ba20c33df736c65a1929fddf387f3a17d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:48 +0000
Subject: [PATCH 26/71] fix: stepfunc of a scalar function kept the tuple
 length of an earlier function

---
 package/inference/grid/grid1d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index c6f5db6..a64365c 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -543,6 +543,7 @@ class BasicGrid1D:
                     self.valSeq = len(f)
                     self.vals = zeros((self.n, self.valSeq), float)
                 else:
+                    self.valSeq = None
                     self.vals = zeros((self.n), float)
                 self.vals[i] = f
             else:
-- 
2.43.0


From 1d125a408882a8bb04cee776a5fdc283b1c9cedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:10 +0000
Subject: [PATCH 27/71] fix: circularly symmetric cubature rules lacked the
 staggering of their rings

---
 package/inference/integrate/_cub2d_auto.py | 64 +++++++++++-----------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/package/inference/integrate/_cub2d_auto.py b/package/inference/integrate/_cub2d_auto.py
index c80c7ad..351943f 100644
--- a/package/inference/integrate/_cub2d_auto.py
+++ b/package/inference/integrate/_cub2d_auto.py
@@ -292,16 +292,16 @@ def e2r2_5_9a(func):
 
 
 e2r2_13_41_absc = array(
-    [[   2.4494897427831779e+00,    0.0000000000000000e+00],
-     [   1.9816788294587098e+00,    1.4397739464496353e+00],
-     [   7.5693395806712094e-01,    2.3296031814720810e+00],
-     [  -7.5693395806712049e-01,    2.3296031814720810e+00],
-     [  -1.9816788294587093e+00,    1.4397739464496355e+00],
-     [  -2.4494897427831779e+00,    2.9997597730436923e-16],
-     [  -1.9816788294587100e+00,   -1.4397739464496351e+00],
-     [  -7.5693395806712116e-01,   -2.3296031814720810e+00],
-     [   7.5693395806712016e-01,   -2.3296031814720810e+00],
-     [   1.9816788294587091e+00,   -1.4397739464496360e+00],
+    [[   2.3296031814720810e+00,    7.5693395806712060e-01],
+     [   1.4397739464496353e+00,    1.9816788294587095e+00],
+     [   2.2204460492503131e-16,    2.4494897427831779e+00],
+     [  -1.4397739464496351e+00,    1.9816788294587095e+00],
+     [  -2.3296031814720806e+00,    7.5693395806712094e-01],
+     [  -2.3296031814720810e+00,   -7.5693395806712027e-01],
+     [  -1.4397739464496357e+00,   -1.9816788294587093e+00],
+     [  -4.4408920985006262e-16,   -2.4494897427831779e+00],
+     [   1.4397739464496349e+00,   -1.9816788294587098e+00],
+     [   2.3296031814720806e+00,   -7.5693395806712149e-01],
      [   9.2897653516474088e-01,    0.0000000000000000e+00],
      [   7.5155780432383135e-01,    5.4603870709559477e-01],
      [   2.8706953674146096e-01,    8.8350918725372063e-01],
@@ -365,12 +365,12 @@ def e2r2_13_41(func):
 
 
 e2r2_9_19a_absc = array(
-    [[   2.0000000000000000e+00,    0.0000000000000000e+00],
-     [   1.0000000000000002e+00,    1.7320508075688772e+00],
-     [  -9.9999999999999967e-01,    1.7320508075688774e+00],
-     [  -2.0000000000000000e+00,    2.4492935982947064e-16],
-     [  -1.0000000000000009e+00,   -1.7320508075688767e+00],
-     [   9.9999999999999867e-01,   -1.7320508075688781e+00],
+    [[   1.7320508075688774e+00,    9.9999999999999989e-01],
+     [   4.4408920985006262e-16,    2.0000000000000000e+00],
+     [  -1.7320508075688770e+00,    1.0000000000000004e+00],
+     [  -1.7320508075688776e+00,   -9.9999999999999967e-01],
+     [  -1.2212453270876722e-15,   -2.0000000000000000e+00],
+     [   1.7320508075688765e+00,   -1.0000000000000016e+00],
      [   1.1024690870412086e+00,    0.0000000000000000e+00],
      [   5.5123454352060441e-01,    9.5476623626472401e-01],
      [  -5.5123454352060408e-01,    9.5476623626472423e-01],
@@ -405,22 +405,22 @@ def e2r2_9_19a(func):
 
 
 e2r2_11_28c_absc = array(
-    [[   2.2360679774997898e+00,    0.0000000000000000e+00],
-     [   1.5811388300841895e+00,    1.5811388300841898e+00],
-     [   1.3691967456605067e-16,    2.2360679774997898e+00],
-     [  -1.5811388300841895e+00,    1.5811388300841898e+00],
-     [  -2.2360679774997898e+00,    2.7383934913210134e-16],
-     [  -1.5811388300841902e+00,   -1.5811388300841893e+00],
-     [  -4.1075902369815199e-16,   -2.2360679774997898e+00],
-     [   1.5811388300841893e+00,   -1.5811388300841902e+00],
-     [   1.3765979318520745e+00,    0.0000000000000000e+00],
-     [   8.4292312547775463e-17,    1.3765979318520745e+00],
-     [  -1.3765979318520745e+00,    1.6858462509555093e-16],
-     [  -2.5287693764332635e-16,   -1.3765979318520745e+00],
-     [   2.6825150931410771e+00,    0.0000000000000000e+00],
-     [   1.6425667612398419e-16,    2.6825150931410771e+00],
-     [  -2.6825150931410771e+00,    3.2851335224796838e-16],
-     [  -4.9277002837195262e-16,   -2.6825150931410771e+00],
+    [[   2.0658574377159642e+00,    8.5570616863128390e-01],
+     [   8.5570616863128368e-01,    2.0658574377159642e+00],
+     [  -8.5570616863128379e-01,    2.0658574377159642e+00],
+     [  -2.0658574377159642e+00,    8.5570616863128401e-01],
+     [  -2.0658574377159642e+00,   -8.5570616863128368e-01],
+     [  -8.5570616863128435e-01,   -2.0658574377159642e+00],
+     [   8.5570616863128357e-01,   -2.0658574377159642e+00],
+     [   2.0658574377159642e+00,   -8.5570616863128435e-01],
+     [   9.7340173257997875e-01,    9.7340173257997864e-01],
+     [  -9.7340173257997853e-01,    9.7340173257997886e-01],
+     [  -9.7340173257997886e-01,   -9.7340173257997853e-01],
+     [   9.7340173257997842e-01,   -9.7340173257997897e-01],
+     [   1.8968246129953188e+00,    1.8968246129953186e+00],
+     [  -1.8968246129953183e+00,    1.8968246129953190e+00],
+     [  -1.8968246129953190e+00,   -1.8968246129953183e+00],
+     [   1.8968246129953181e+00,   -1.8968246129953192e+00],
      [   6.1791116665497925e-01,    0.0000000000000000e+00],
      [   3.7836146620071352e-17,    6.1791116665497925e-01],
      [  -6.1791116665497925e-01,    7.5672293240142704e-17],
-- 
2.43.0


From 7cb8fdf12b70fe416d4888461ea537e02f6655bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:36 +0000
Subject: [PATCH 28/71] fix: adapt ignored its maxfac and wrkfac arguments

---
 package/inference/integrate/adapt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/package/inference/integrate/adapt.py b/package/inference/integrate/adapt.py
index 241ee2d..9f647e0 100644
--- a/package/inference/integrate/adapt.py
+++ b/package/inference/integrate/adapt.py
@@ -60,7 +60,7 @@ def adapt_sizes(ndim, maxfac=100):
   """
   rulcls = 2**ndim + 2*ndim**2 + 6*ndim + 1
   minpts, maxpts = rulcls, maxfac*rulcls
-  lenwrk = (2*ndim + 3) * (1 + maxfac) / 2
+  lenwrk = (2*ndim + 3) * (1 + maxfac) // 2
   return minpts, maxpts, lenwrk
 
 
@@ -82,7 +82,8 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
     err = estimate of relative error of result
     ntps = # of function evaluations used
   """
-  minpts, maxpts, lenwrk = adapt_sizes(len(lower))
+  minpts, maxpts, lenwrk = adapt_sizes(len(lower), maxfac)
+  lenwrk = wrkfac*lenwrk
   npts, err, result, ifail = _adapt.adapt(lower, upper, minpts, maxpts,
                                           func, relacc, lenwrk)
   if ifail == 0:
-- 
2.43.0


From b95301dcf36e092006154f34626114c5da27aeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:36 +0000
Subject: [PATCH 29/71] fix: adapt returned None for an illegal dimension

---
 package/inference/integrate/adapt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/integrate/adapt.py b/package/inference/integrate/adapt.py
index 9f647e0..89bd74c 100644
--- a/package/inference/integrate/adapt.py
+++ b/package/inference/integrate/adapt.py
@@ -92,3 +92,5 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
     raise RuntimeError('Failed to achieve specified accuracy; increase maxfac!')
   elif ifail == 2:
     raise RuntimeError('Failed to achieve specified accuracy; increase wrkfac!')
+  else:
+    raise ValueError('Illegal dimension (must be in [2,20]) or maxfac (must be >= 1)!')
-- 
2.43.0


From f580957affd9860a0cc07f0ef46a643e7ee74dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:36 +0000
Subject: [PATCH 30/71] fix: adapt_vec failed for every input (float workspace
 size)

---
 package/inference/integrate/adapt_vec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/integrate/adapt_vec.py b/package/inference/integrate/adapt_vec.py
index ff8f1e6..01c7384 100644
--- a/package/inference/integrate/adapt_vec.py
+++ b/package/inference/integrate/adapt_vec.py
@@ -39,14 +39,14 @@ def adapt_vec(nfuncs, vfunc, lower, upper, releps,
         num = 127
     elif (key == 0 and ndim >= 3) or key == 3:
         num = 1 + 8*ndim + 2*ndim*(ndim-1) + 4*ndim*(ndim-1) + \
-            4*ndim*(ndim-1)*(ndim-2)/3 + 2**ndim
+            4*ndim*(ndim-1)*(ndim-2)//3 + 2**ndim
     elif key == 4:
         num = 1 + 6*ndim + 2*ndim*(ndim-1) + 2**ndim
     else:
         raise ValueError('Illegal key value!')
 
     # Calculate the max number of subregions, and workspace size.
-    maxsub = (maxpts-num)/(2*num) + 1
+    maxsub = (maxpts-num)//(2*num) + 1
     nw = maxsub*(2*ndim+2*nfuncs+2) + 17*nfuncs + 1
     work = zeros(nw, float)
     print('Rule size, max subregions, workspace size:', num, maxsub, nw)
-- 
2.43.0


From b9805057322788db518f3104f362f22e3bb72ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:09 +0000
Subject: [PATCH 31/71] fix: MinBracket looped forever where the function is
 flat

---
 package/inference/utils/nrmin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/nrmin.py b/package/inference/utils/nrmin.py
index 7dbd9e2..3824ba1 100644
--- a/package/inference/utils/nrmin.py
+++ b/package/inference/utils/nrmin.py
@@ -20,7 +20,7 @@ class MinBracket:
         self.x2 = self.xm + GOLD*(self.xm - self.x1)
         self.f2 = f(self.x2)
         while 1:
-            if (self.fm < self.f2):
+            if (self.fm <= self.f2):  # includes flat functions
                 break
             d1 = (self.xm - self.x1)
             d2 = (self.xm - self.x2)
-- 
2.43.0


From f18f2c0ce45d17294ac1252acb679da0894d1efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:09 +0000
Subject: [PATCH 32/71] fix: powell altered the direction vectors passed to it

---
 package/inference/utils/nrmin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/nrmin.py b/package/inference/utils/nrmin.py
index 3824ba1..9b28625 100644
--- a/package/inference/utils/nrmin.py
+++ b/package/inference/utils/nrmin.py
@@ -182,7 +182,7 @@ def powell(f, p, drxns=None, ftol=1.e-6, maxit=200, nlog=None, shuffle=False):
     n = len(p)
     if drxns is None:
         drxns = identity(n)
-        drxns = array(drxns, float)
+    drxns = array(drxns, float)  # a copy; the directions get replaced
     if shuffle:
         vec = drxns[0].copy()  # must copy!
         for i in range(n-1):
-- 
2.43.0


From fed08134e74d7335eb5739ba2060160469fc9005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:37 +0000
Subject: [PATCH 33/71] fix: del_listener referred to a nonexistent attribute

---
 package/inference/pie/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/param.py b/package/inference/pie/param.py
index f8a3113..a427767 100644
--- a/package/inference/pie/param.py
+++ b/package/inference/pie/param.py
@@ -164,7 +164,7 @@ class ParamHandler(object):
 
     def del_listener(self, listener):
         try:
-            self.listener.remove(listener)
+            self.listeners.remove(listener)
         except ValueError:
             pass
 
-- 
2.43.0


From 4770081594c9fc227ee1b4c1d85bec8309c01285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:37 +0000
Subject: [PATCH 34/71] fix: stepping over the default (allowed) range failed

---
 package/inference/pie/realparam.py | 37 +++++++++++++++---------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index df6e6ed..e872bb0 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -115,6 +115,17 @@ class RealParamHandler(ScalarParamHandler):
             raise ValueError('Range must be a pair of scalars or a 2-element sequence!')
         self.bounded = 1
 
+    def _step_range(self, lo, hi):
+        """Return the limits for stepping; limits that are None default to
+        those of the parameter's allowed range."""
+        if (lo is None or hi is None) and not self.bounded:
+            raise ValueError('Need a range for stepping parameter!')
+        if lo is None:
+            lo = self.lo
+        if hi is None:
+            hi = self.hi
+        return lo, hi
+
     # *** Perhaps make these so a single (unnamed) arg -> set n over current range.
 
     def linstep(self, lo=None, hi=None, n=10):
@@ -125,17 +136,12 @@ class RealParamHandler(ScalarParamHandler):
         if self.bounded and hi != None:
             if hi < self.lo or hi > self.hi:
                 raise ParamRangeError("hi step out of parameter's allowed range!")
+        lo, hi = self._step_range(lo, hi)
+        self.delta = (hi-lo)/(n-1.)
         self.stype = lin_steps
-        if lo is None:
-            self.slo = self.lo
-        else:
-            self.slo = lo
-        if hi is None:
-            self.shi = self.hi
-        else:
-            self.shi = hi
+        self.slo = lo
+        self.shi = hi
         self.steps = n
-        self.delta = (hi-lo)/(n-1.)
         self.step_num = 0
         self._set_value(lo)
         self._set_status(stepping)
@@ -152,19 +158,14 @@ class RealParamHandler(ScalarParamHandler):
         if self.bounded and hi != None:
             if hi < self.lo or hi > self.hi:
                 raise ParamRangeError("hi step out of parameter's allowed range!")
+        lo, hi = self._step_range(lo, hi)
         if lo*hi <= 0.:
             raise ValueError('Illegal (lo,hi) for log stepping (need same sign)!')
+        self.fac = exp(log(hi/lo)/(n-1.))
         self.stype = log_steps
-        if lo:
-            self.slo = lo
-        else:
-            self.slo = self.lo
-        if hi:
-            self.shi = hi
-        else:
-            self.shi = self.hi
+        self.slo = lo
+        self.shi = hi
         self.steps = n
-        self.fac = exp(log(hi/lo)/(n-1.))
         self.step_num = 0
         self._set_value(lo)
         self._set_status(stepping)
-- 
2.43.0


From 84ed4acac90c73dee47caae48c0b86308f724a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:37 +0000
Subject: [PATCH 35/71] fix: a refused vary() left the parameter varying, with
 a new range and delta

---
 package/inference/pie/realparam.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index e872bb0..b35efa3 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -228,23 +228,29 @@ class RealParamHandler(ScalarParamHandler):
         return self.step_num
 
     def vary(self, start=None, delta=None, range=None):
+        # Verify everything before changing any state, so the parameter is
+        # left as it was if the request is refused.
         if not range:
             if not self.bounded:
                 raise ValueError('Need a range for varying parameter!')
+            lo, hi = self.lo, self.hi
         else:
+            lo, hi = float(min(range)), float(max(range))
+        # *** Perhaps use a default delta (& warn if so)?
+        if delta is None and self.delta == None:
+            raise ValueError('Need a delta for varying parameter!')
+        if start != None:
+            if not (start >= lo and start <= hi):
+                raise ParamRangeError("Value out of parameter's allowed range!")
+        elif self._value == None:
+            raise ValueError('Need a start value for varying parameter!')
+        if range:
             self.range(range)
         if delta is not None:
             self.delta = delta
-        else:  # *** Perhaps use a default delta (& warn if so)?
-            if self.delta == None:
-                raise ValueError('Need a delta for varying parameter!')
         self._set_status(varying)
-        # *** Can harm be done by setting status before verifying
-        # the start value?
         if start != None:
-            self.set_value(start)  # Note: this will verify in range.
-        elif self._value == None:
-            raise ValueError('Need a start value for varying parameter!')
+            self.set_value(start)
 
     def check(self, percent=1.):
         if self.status != varying:
-- 
2.43.0


From 80074aa612d94462c291228f4f1cf7f4df937796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:12 +0000
Subject: [PATCH 36/71] fix: models defined interactively (no source) could not
 be instantiated

---
 package/inference/pie/inference_base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 3e96ac2..5619792 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -135,11 +135,11 @@ class Inference(HasAutoNamed):
                 raise InferenceError('Some params not defined in SignalModel source!')
         except IOError:  # Only in the unlikely event of interactive model def'n
             print('Could not locate SignalModel source; proceeding with unordered params.')
-            oparams = self.signal_class.param_names
+            oparams = self.signal_class.param_names[:]
         except TypeError:  # This is needed due to an apparent bug in inspect (failure can raise TypeError).
             print('Could not locate SignalModel source; proceeding with unordered params.')
             print('(Note: This may be due to a bug in inspect.py)')
-            oparams = self.signal_class.param_names
+            oparams = self.signal_class.param_names[:]
         return oparams
 
     def _get_pred_names(self, pred_params):
@@ -173,12 +173,12 @@ class Inference(HasAutoNamed):
                 raise InferenceError('Some Predictor(s) not defined in Predictors source!')
         except IOError:  # Only in the unlikely event of interactive pred. def'n
             print('Could not locate PredictorSet source; proceeding with unordered params.')
-            oparams.extend(self.pred_class.param_names)
-            opreds = self.pred_class.predictor_names
+            oparams = list(getattr(self.pred_class, 'param_names', []))
+            opreds = self.pred_class.predictor_names[:]
         except:  # This is needed due to an apparent bug in inspect (failure can raise TypeError).
             print('Could not locate PredictorSet source; proceeding with unordered params.')
-            oparams.extend(self.pred_class.param_names)
-            opreds = self.pred_class.predictor_names
+            oparams = list(getattr(self.pred_class, 'param_names', []))
+            opreds = self.pred_class.predictor_names[:]
         return oparams, opreds
         # Make sure params are unique; i.e., that the Predictors class
         # hasn't duplicated a param name.
-- 
2.43.0


From 05636118219e2cddffeb08862da29977c540806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:12 +0000
Subject: [PATCH 37/71] fix: params were silently dropped unless written "name
 =" or "name="

---
 package/inference/pie/inference_base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 5619792..f82bd6c 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -131,8 +131,8 @@ class Inference(HasAutoNamed):
                     if line.startswith(param+' =') or line.startswith(param+'='):
                         oparams.append(param)
                         signal_params.remove(param)
-            if signal_params != []:
-                raise InferenceError('Some params not defined in SignalModel source!')
+            # Params the source search missed follow in the order of definition.
+            oparams.extend(signal_params)
         except IOError:  # Only in the unlikely event of interactive model def'n
             print('Could not locate SignalModel source; proceeding with unordered params.')
             oparams = self.signal_class.param_names[:]
@@ -158,8 +158,8 @@ class Inference(HasAutoNamed):
                         if line.startswith(param+' =') or line.startswith(param+'='):
                             oparams.append(param)
                             pred_params.remove(param)
-                if pred_params != []:
-                    raise InferenceError('Some params not defined in Predictors source!')
+                # Params the source search missed follow in the order of definition.
+                oparams.extend(pred_params)
             # Now do the same to get the Predictor order.
             opreds = []
             preds = self.pred_class.predictor_names[:]
@@ -169,8 +169,7 @@ class Inference(HasAutoNamed):
                     if line.startswith(pred+' =') or line.startswith(pred+'='):
                         opreds.append(pred)
                         preds.remove(pred)
-            if preds != []:
-                raise InferenceError('Some Predictor(s) not defined in Predictors source!')
+            opreds.extend(preds)
         except IOError:  # Only in the unlikely event of interactive pred. def'n
             print('Could not locate PredictorSet source; proceeding with unordered params.')
             oparams = list(getattr(self.pred_class, 'param_names', []))
-- 
2.43.0


From 342ca8fd3d82abc197491cb80029e9bb433e9520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:12 +0000
Subject: [PATCH 38/71] fix: deriving a model from another lost its params and
 altered the base class

---
 package/inference/pie/inference_base.py | 4 ++--
 package/inference/pie/param.py          | 6 ++----
 package/inference/pie/predictor.py      | 6 ++----
 3 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index f82bd6c..545f4f3 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -90,9 +90,9 @@ class Inference(HasAutoNamed):
         # shuffled order, the order of keys in the class dict).
         # First, get the SignalModel and Predictors mixin classes.
         for cls in self.__class__.__bases__:
-            if SignalModel in cls.__bases__:
+            if issubclass(cls, SignalModel):
                 self.signal_class = cls
-            elif PredictorSet in cls.__bases__:
+            elif issubclass(cls, PredictorSet):
                 self.pred_class = cls
         # Get the names of params and predictors from the mixins.
         # Get them from source if available, to preserve the order
diff --git a/package/inference/pie/param.py b/package/inference/pie/param.py
index a427767..f30c4fa 100644
--- a/package/inference/pie/param.py
+++ b/package/inference/pie/param.py
@@ -85,10 +85,8 @@ class Param(AutoNamed):
         self.value_name = '__' + name + '_val'
         self.handler_name = '__' + name + '_hndlr'
         # Keep a list of param names in the class dict.
-        try:
-            cls.param_names.append(name)
-        except AttributeError:
-            cls.param_names = [name]
+        # Make a new list, so as not to alter that of a base class.
+        cls.param_names = getattr(cls, 'param_names', []) + [name]
 
     def __get__(self, inst, owner):
         # On access (via an Inference instance), the arguments will be:
diff --git a/package/inference/pie/predictor.py b/package/inference/pie/predictor.py
index be542d3..025bb84 100644
--- a/package/inference/pie/predictor.py
+++ b/package/inference/pie/predictor.py
@@ -59,10 +59,8 @@ class Predictor(AutoNamed):
         self.name = name
         self.handler_name = '__' + name + '_hndlr'
         # Keep a list of predictor names in the class dict.
-        try:
-            cls.predictor_names.append(name)
-        except AttributeError:
-            cls.predictor_names = [name]
+        # Make a new list, so as not to alter that of a base class.
+        cls.predictor_names = getattr(cls, 'predictor_names', []) + [name]
 
     def clone(self):
         # ??? Can this be abstracted here?
-- 
2.43.0


From a6f1aca29abf2be32f84bf64ceaa4d36dfce7b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:12 +0000
Subject: [PATCH 39/71] fix: vargrid failed on grids without varying params

---
 package/inference/pie/inference_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 545f4f3..09ab440 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -442,7 +442,6 @@ class Inference(HasAutoNamed):
                         if extremum < opt_val:
                             opt_val, opt_ind = extremum, ind
                 if vargrid:
-                    print(vresults.values[ind], param_vals)
                     if vdim == 1:
                         vresults.values[ind] = param_vals[0]
                     else:
@@ -462,7 +461,7 @@ class Inference(HasAutoNamed):
         if self.varying_params:
             results.opt_val = opt_val
             results.opt_ind = opt_ind
-        if vargrid:
+        if vargrid and self.varying_params:
             vresults.opt_ind = opt_ind
             return results, vresults
         else:
-- 
2.43.0


From b898cba9e65375307a7c16cc5424cb1a7c18fb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:12 +0000
Subject: [PATCH 40/71] fix: optimize left (and with map_bounds returned)
 params other than the optimum

---
 package/inference/pie/inference_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 09ab440..9a1db83 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -526,6 +526,8 @@ class Inference(HasAutoNamed):
                                              ftol=1.e-3, maxit=200, shuffle=True)
         else:
             raise InferenceError('Invalid minimization method specified!')
+        # The last point evaluated need not be the optimum; set the params there.
+        extremum = self._score(params)
         if self.extremize == maximize:  # adjust for sign reversal
             extremum = -extremum
         if self.use_unbounded:  # Convert unbounded values back to normal.
-- 
2.43.0


From ee1332e28cd150cabcc69937cdeab01a75e6f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:12 +0000
Subject: [PATCH 41/71] fix: optimize ignored the requested (and the default)
 tolerance

---
 package/inference/pie/inference_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 9a1db83..d9f52e6 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -486,6 +486,7 @@ class Inference(HasAutoNamed):
         if tol is None:
             if self.min_tol is None:
                 raise InferenceError('No minimization tolerance has been specified!')
+            tol = self.min_tol
         # Most methods require a vector of starting param values and
         # a scale for each; collect this info here (transformed if necessary).
         p, d = [], []
@@ -523,7 +524,7 @@ class Inference(HasAutoNamed):
             # subspace.
             dd = 0.2 * identity(len(d)) * array(d, float)
             params, extremum, extra = powell(self._score, params[:], drxns=dd,
-                                             ftol=1.e-3, maxit=200, shuffle=True)
+                                             ftol=tol, maxit=200, shuffle=True)
         else:
             raise InferenceError('Invalid minimization method specified!')
         # The last point evaluated need not be the optimum; set the params there.
-- 
2.43.0


From 23ee5896c6090adf333b95372dca49d68e7d5306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:12 +0000
Subject: [PATCH 42/71] fix: obs_info left the params displaced from the mode

---
 package/inference/pie/bayes.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/package/inference/pie/bayes.py b/package/inference/pie/bayes.py
index 07abfc2..81403e6 100644
--- a/package/inference/pie/bayes.py
+++ b/package/inference/pie/bayes.py
@@ -69,7 +69,7 @@ class BayesianInference(Inference):
         """
         # *** Expand docstring.
         # Treat the current state as the mode.
-        logp_max = self._log_like + self._log_prior
+        logp_max = self.score()
         mode = []
         for param in self.varying_params:
             mode.append(param.get_value())
@@ -82,9 +82,12 @@ class BayesianInference(Inference):
                 deltas.append(param.delta)
         else:
             deltas = steps
-        deltas = dllsteps(self._logp_func, mode, deltas, dlogp, logp_max)
-        # Use those step sizes for estimating the observed info matrix.
-        info, ierr = obsinfo(self._logp_func, mode, deltas, logp_max, niter=n)
+        try:
+            deltas = dllsteps(self._logp_func, mode, deltas, dlogp, logp_max)
+            # Use those step sizes for estimating the observed info matrix.
+            info, ierr = obsinfo(self._logp_func, mode, deltas, logp_max, niter=n)
+        finally:
+            self._logp_func(mode)  # Restore the params to the mode.
         if err:
             return info, ierr
         else:
-- 
2.43.0


From 8db9b3107c49b76e1bb0943c4bb87aad4bdf60fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 43/71] fix: mapped (unbounded) parameter values could overflow
 or leave the range

---
 package/inference/pie/realparam.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index b35efa3..22349fc 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -3,7 +3,7 @@ Real-valued (i.e., float-valued) parameters.
 """
 
 from .param import *
-from scipy import exp, log, isinf, isnan
+from scipy import exp, log, isnan
 
 from .logger import pielog
 
@@ -285,17 +285,16 @@ class RealParamHandler(ScalarParamHandler):
         if not self.bounded:
             raise ParamError('No bounds defined for parameter!')
         else:
-            expv = exp(uvalue)
-            if isinf(expv) or isnan(expv):
-                if uvalue > 0:
-                    self._set_value(self.hi)
-                else:
-                    self._set_value(self.lo)
+            # Use exponentials of negative values so nothing overflows.
+            expv = exp(-abs(uvalue))
+            if uvalue > 0:
+                value = (self.lo*expv + self.hi)/(1. + expv)
+            elif isnan(expv):
+                value = self.lo
             else:
-                # Use _set_value, since this should be in range.  In fact,
-                # I've found just-barely out-of-range results (presumably due
-                # to roundoff at limits) that trigger exceptions using set_value.
-                self._set_value((self.lo + self.hi*expv)/(1. + expv))
+                value = (self.lo + self.hi*expv)/(1. + expv)
+            # Roundoff at limits can give just-barely out-of-range results.
+            self._set_value(min(max(value, self.lo), self.hi))
 
     def show(self):
         """Return a string containing the name, value, and doc for the param."""
-- 
2.43.0


From 5db1345286f1ac21311dc3ec740b5cc4456c5166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 44/71] fix: SampledGaussian refused single-argument and
 multi-dimensional data

---
 package/inference/pie/gaussian.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 3192bf1..482865b 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -255,9 +255,9 @@ class SampledGaussian(Predictor):
             all = args[0]
             try:
                 rows, cols = all.shape
-                self.locns = all[:,0]
-                self.vals = all[:,1]
-                self.sigmas = all[:,2]
+                self._locns = all[:,0]
+                self._vals = all[:,1]
+                self._sigmas = all[:,2]
             except AttributeError:
             # If *all* is not an array, treat it as a list.
             # Only the list format can handle >1-d locns using
@@ -268,9 +268,9 @@ class SampledGaussian(Predictor):
                     self._locns.append(row[0])
                     self._vals.append(row[1])
                     self._sigmas.append(row[2])
-                self._locns = array(self.locns)
-                self._vals = array(self.vals)
-                self._sigmas = array(self.sigmas)
+                self._locns = array(self._locns)
+                self._vals = array(self._vals)
+                self._sigmas = array(self._sigmas)
             except:
                 raise DataError('Bad data array format!')
                 # *** Should ndata, dimen be _ndata...?  Or eliminate _...?
@@ -279,6 +279,6 @@ class SampledGaussian(Predictor):
         if len(self._locns.shape) == 1:
             self.dimen = 1
         elif len(self._locns.shape) == 2:
-            self.dimen = self.locns.shape[1]
+            self.dimen = self._locns.shape[1]
         else:
             raise DataError('Locations should be scalars or 1-d arrays!')
-- 
2.43.0


From 1518f116c95a624d368783d057f2c66e1150cd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 45/71] fix: simulating with new locations or sigmas failed or
 kept stale data

---
 package/inference/pie/gaussian.py | 52 ++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 482865b..755fe28 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -42,9 +42,11 @@ class SampledGaussianHandler(PredictorHandler):
         # arrays).  For other data types we might need to use the copy
         # or deepcopy modules.
         if self._using_globals:
-            self.locns = self.locns.copy()
-            self.vals = self.vals.copy()
-            self.sigmas = self.sigmas.copy()
+            # Make them floats; simulated values would be truncated in integer
+            # arrays.
+            self.locns = array(self.locns, float)
+            self.vals = array(self.vals, float)
+            self.sigmas = array(self.sigmas, float)
             self._using_globals = False
         
     def changing_data(self):
@@ -110,19 +112,20 @@ class SampledGaussianHandler(PredictorHandler):
         """
         self.changing_data()
         # Change the data locns/sigmas if necessary.
-        if locns and sigmas:
+        if locns is not None and sigmas is not None:
             if len(locns) != len(sigmas):
                 raise ValueError('locns/sigmas length mismatch!')
-            self.locns = locns
-            self.sigmas = sigmas
-        elif locns:
+            self.locns = array(locns, float)
+            self.sigmas = array(sigmas, float)
+        elif locns is not None:
             if len(locns) != self.ndata:
                 raise ValueError('Incorrect number of locns!')
-            self.locns = locns
-        elif sigmas:
+            self.locns = array(locns, float)
+        elif sigmas is not None:
             if len(sigmas) != self.ndata:
                 raise ValueError('Incorrect number of sigmas!')
-            self.sigmas = sigmas
+            self.sigmas = array(sigmas, float)
+        self.note_size()
         self.get_prdxns()
         # Sample data via Gaussians.
         self.vals = self.prdxns + self.sigmas*stdnorm.rvs(self.ndata)
@@ -138,10 +141,10 @@ class SampledGaussianHandler(PredictorHandler):
         location and/or sigma for the datum.
         """
         self.changing_data()
-        if locn:
+        if locn is not None:
             # *** Verify locn dimension!
             self.locns[n] = locn
-        if sigma:
+        if sigma is not None:
             self.sigmas[n] = sigma
         self.get_prdxns()
         # Sample datum via Gaussian.
@@ -159,26 +162,33 @@ class SampledGaussianHandler(PredictorHandler):
         """
         self.changing_data()
         # First adjust locns and sigmas.
-        if locn and sigma:
-            self.ndata += 1
+        if locn is not None and sigma is not None:
             self.locns = concatenate( (self.locns, (locn,)) )
             self.sigmas = concatenate( (self.sigmas, (sigma,)) )
-        elif locns and sigmas:
+        elif locns is not None and sigmas is not None:
             if len(locns) != len(sigmas):
                 raise ValueError('locns/sigmas length mismatch!')
-            self.ndata += len(locns)
             self.locns = concatenate( (self.locns, locns) )
             self.sigmas = concatenate( (self.sigmas, sigmas) )
-        self.ndata += len(self.locns)
+        nold = self.ndata
+        self.note_size()
+        # Update predictions, and sample the new data via Gaussians.
+        self.get_prdxns()
+        new = self.prdxns[nold:] + self.sigmas[nold:]*stdnorm.rvs(self.ndata-nold)
+        self.vals = concatenate( (self.vals, new) )
+
+    def note_size(self):
+        """
+        Note the number of data and the dimension of their locations.
+        """
+        self.ndata = len(self.locns)
         if len(self.locns.shape) == 1:
             self.dimen = 1
-        elif len(self._locns.shape) == 2:
+        elif len(self.locns.shape) == 2:
             self.dimen = self.locns.shape[1]
         else:
             raise DataError('Locations should be scalars or 1-d arrays!')
-        # Update predictions.
-        self.get_prdxns()
-        
+
 
 # *** Add method to restore to original (not simulated) data?
 # May have to allow explicit caching to define "original" data
-- 
2.43.0


From be58e61c50ffad07e8579a80aa507fb6472273ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:30 +0000
Subject: [PATCH 46/71] fix: grids started after manual steps or a failure were
 only partly evaluated

---
 package/inference/pie/inference_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index d9f52e6..f8fc210 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -412,6 +412,9 @@ class Inference(HasAutoNamed):
         collected and returned as a SimpleVectorGrid.  The method and
         tol arguments get passed to the resulting optimize() calls.
         """
+        # Start at the first grid point even if the params were stepped by hand
+        # or an earlier calculation failed along the way.
+        self.reset_steps()
         results = ScalarGrid(self.stepping_params)
         vdim = len(self.varying_params)
         # if vargrid and (vdim == 0):
-- 
2.43.0


From dacfc0bfa3c068ba2a45febc017952e7234be93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:18 +0000
Subject: [PATCH 47/71] fix: mapped fits starting or stepping onto a bound
 failed silently

---
 package/inference/pie/realparam.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index 22349fc..1ba6241 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -274,7 +274,9 @@ class RealParamHandler(ScalarParamHandler):
             # elif self._value >= self.hi:
             # return 1.e308
             # else:
-            return log(self._value-self.lo) - log(self.hi-self._value)
+            # The boundaries themselves must map to finite values.
+            eps = 1.e-15*(self.hi-self.lo)
+            return log(max(self._value-self.lo, eps)) - log(max(self.hi-self._value, eps))
 
     def _unbounded_set_value(self, uvalue):
         """Set a varying param's value via a transformed parameter that has
-- 
2.43.0


From c114e78488112b1fe5fdc472d0038885049596bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:41 +0000
Subject: [PATCH 48/71] fix: stores opened by their full file name were never
 loaded

---
 package/inference/utils/ioutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index ea9e41b..3741c8b 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -109,7 +109,7 @@ class ArrayStore(object):
         if fname:
             if not fname.endswith('.npz'):
                 fname = fname + '.npz'
-                self._npz = load(fname)
+            self._npz = load(fname)
         else:
             self._npz = None
         self._fname = fname
@@ -239,9 +239,9 @@ class AttrStore(object):
         if fname:
             if not fname.endswith('.pkl'):
                 fname = fname + '.pkl'
-                ifile = open(fname, 'rb')
-                self._archive = pkl.load(ifile)
-                ifile.close()
+            ifile = open(fname, 'rb')
+            self._archive = pkl.load(ifile)
+            ifile.close()
         else:
             self._archive = None
         self._fname = fname
-- 
2.43.0


From c25795c2b47bcb4e1c5c2b8ba57a83a6f18227a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:41 +0000
Subject: [PATCH 49/71] fix: contents() of a store listed new values instead of
 names

---
 package/inference/utils/ioutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 3741c8b..0cdcdb2 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -201,7 +201,7 @@ class ArrayStore(object):
         names = []
         if self._npz:
             names.extend(self._npz.files)  # archive file names will be array names
-        names.extend(list(self._new.values()))
+        names.extend([name for name in self._new if name not in names])
         return names
 
 
@@ -335,7 +335,7 @@ class AttrStore(object):
         names = []
         if self._archive:
             names.extend(list(self._archive.keys()))
-        names.extend(list(self._new.values()))
+        names.extend([name for name in self._new if name not in names])
         return names
 
 
-- 
2.43.0


From 5672f831f07d5f821380bea91bfc90e183844300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:41 +0000
Subject: [PATCH 50/71] fix: read_column_vectors could not return arrays

---
 package/inference/utils/ioutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 0cdcdb2..a7a3e73 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -1,7 +1,7 @@
 import os
 import os.path as path
 import pickle as pkl
-from numpy import ndarray, savez, load
+from numpy import array, ndarray, savez, load
 
 __all__ = ['backup', 'safe_open', 'ArrayStore', 'AttrStore']
 
-- 
2.43.0


From 4014215323b79e5e022153698e4e213a00f6cab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:41 +0000
Subject: [PATCH 51/71] fix: safe_open dropped keyword arguments for the opener

---
 package/inference/utils/ioutils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index a7a3e73..46b6502 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -33,10 +33,7 @@ def safe_open(fname, binary=False, opener=None, *args, **kwds):
     """
     backup(fname)
     if opener:
-        if args:
-            fobj = opener(fname, *args, **kwds)
-        else:
-            fobj = opener(fname)
+        fobj = opener(fname, *args, **kwds)
     else:
         if binary is True or binary == 'b':
             fobj = open(fname, 'wb')
-- 
2.43.0


From f35b14984084e1a01d81f008ab31fad729fcdad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:41 +0000
Subject: [PATCH 52/71] fix: the RNG state could not be saved, and lost a
 pending normal deviate

---
 package/inference/utils/rng.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/rng.py b/package/inference/utils/rng.py
index 80d1e94..32ebe0b 100644
--- a/package/inference/utils/rng.py
+++ b/package/inference/utils/rng.py
@@ -15,7 +15,8 @@ def save_rng(fname='.numpy-rng-state'):
     """
     state = random.get_state()
     if state[0] == MT_id:
-        id, state = state[0], (state[1], state[2]) # (ID, (key, pos)) for MT
+        # (ID, (key, pos, has_gauss, cached_gaussian)) for MT
+        id, state = state[0], tuple(state[1:])
     else:
         raise RuntimeError('numpy.random using unrecognized RNG type!')
     if path.exists(fname):
@@ -24,7 +25,7 @@ def save_rng(fname='.numpy-rng-state'):
             fname2 = fname + '.2'
             os.rename(fname1, fname2)
         os.rename(fname, fname1)
-    ofile = open(fname, 'w')
+    ofile = open(fname, 'wb')
     pickle.dump((id, state), ofile)
     ofile.close()
     
@@ -35,7 +36,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
     The default file name is '.numpy-rng-state'.
     """
     if os.access(fname, os.R_OK | os.W_OK):
-        rng_file = open(fname, 'r')
+        rng_file = open(fname, 'rb')
         id, state = pickle.load(rng_file)
         rng_file.close()
         if id == MT_id:
@@ -43,7 +44,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
             if notify:
                 print('Recovered RNG state:  %s [%s %s ...] %i' %\
             	    (id, repr(state[0][0]), repr(state[0][1]), state[1]))
-            random.set_state((id, state[0], state[1]))
+            random.set_state((id,) + tuple(state))
         else:
             raise ValueError('Invalid ID for RNG in %s!' % fname)
     else:
-- 
2.43.0


From ca307bd171b82af693b330bfdfee1c4e1570f810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:41 +0000
Subject: [PATCH 53/71] fix: zbracket missed sign changes of very small values

---
 package/inference/utils/numutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index 06aece0..46bfa46 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -193,7 +193,7 @@ def zbracket(func, x1, x2, vals=None, args=None, maxtries=50, expand=1.6):
     tries = 0
     while tries < maxtries:
         tries += 1
-        if f1*f2 < 0.:
+        if f1 < 0. < f2 or f2 < 0. < f1:  # f1*f2 may underflow
             return x1, x2
         # Expand the side nearer to zero; on a plateau (f1 == f2) neither side
         # is, so expand both.
-- 
2.43.0


From a06ff5660083e38204a67071099b9e3f7f5219c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:41 +0000
Subject: [PATCH 54/71] fix: LogSummer gave NaN for the spread of equal values

---
 package/inference/utils/numutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index 46bfa46..a8db921 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -1,4 +1,4 @@
-from numpy import exp, log, fromfunction
+from numpy import exp, log, fromfunction, inf
 # from roots import zbracket
 
 __all__ = ['lin_stepper', 'lin_enum_stepper', 'log_stepper', 'log_enum_stepper',
@@ -142,7 +142,9 @@ class LogSummer:
             l2 = self.sigSum - ln
             dif = 2*lmean - l2
             lsig = 0.5*l2
-            if dif > -40:	# Otherwise the (-mean**2) part is below roundoff.
+            if dif >= 0.:	# No variance (to within roundoff).
+                lsig = -inf
+            elif dif > -40:	# Otherwise the (-mean**2) part is below roundoff.
                 lsig += 0.5*log(1. - exp(dif))
             return self.n, self.logSum, self.sigSum, lmean, lsig
         else:
-- 
2.43.0


From 241dfb5530957465d43864bbab2cc26071d2cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:41 +0000
Subject: [PATCH 55/71] fix: plot_bivar failed with its default (and any
 decreasing) levels

---
 package/inference/utils/plot_bivar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/package/inference/utils/plot_bivar.py b/package/inference/utils/plot_bivar.py
index 9e67c73..222feb3 100644
--- a/package/inference/utils/plot_bivar.py
+++ b/package/inference/utils/plot_bivar.py
@@ -90,6 +90,11 @@ def plot_bivar(x, y, logpdf, iorder='xy', levels=None, plevels=None, cross=None,
     else:
         # Treat levels as *absolute* levels (not relative to max).
         levels = array(levels) - logmax
+    # Contour levels must increase; keep any sequence of colors matched to them.
+    order = argsort(levels)
+    levels = levels[order]
+    if not isinstance(colors, str):
+        colors = [colors[i % len(colors)] for i in order]
 
     # Plot a grayscale image displaying tails beyond the lowest level.
     if gscale:
-- 
2.43.0


From ea65d13a61226e410f4ef8aa01811127694fe418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:41 +0000
Subject: [PATCH 56/71] fix: plot_bivar could not draw a cross

---
 package/inference/utils/plot_bivar.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/package/inference/utils/plot_bivar.py b/package/inference/utils/plot_bivar.py
index 222feb3..c1cf865 100644
--- a/package/inference/utils/plot_bivar.py
+++ b/package/inference/utils/plot_bivar.py
@@ -126,8 +126,6 @@ def plot_bivar(x, y, logpdf, iorder='xy', levels=None, plevels=None, cross=None,
 
     if cross:
         xc, yc = cross
-        xlo, xhi = xlim()
-        ylo, yhi = ylim()
         pl.hlines(yc, xlo, xhi, 'teal')
         pl.vlines(xc, ylo, yhi, 'teal')
     # This makes the original colorbar look a bit out of place,
-- 
2.43.0


From 8d7d2d2b13e2cbdc2d42e82d734e0feeb15c665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:41 +0000
Subject: [PATCH 57/71] fix: the plot method of a grid ignored gscale

---
 package/inference/pie/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/containers.py b/package/inference/pie/containers.py
index 6113ccd..8539198 100644
--- a/package/inference/pie/containers.py
+++ b/package/inference/pie/containers.py
@@ -111,7 +111,7 @@ class ScalarGrid(object):
                 except:
                     pl.figure()  # start a new figure by default
                 plot_bivar(xvals, yvals, self.values, xlabel=x_name,
-                           ylabel=y_name, **kwds)
+                           ylabel=y_name, gscale=gscale, **kwds)
             else:
                 raise NotImplementedError('Plotting log steps not yet implemented!')
         else:
-- 
2.43.0


From a25624a80d7d4abe3884e3c9b57251779f1e056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 58/71] fix: HPDGrid2D.plot transposed the density and failed
 for falling levels

---
 package/inference/grid/hpdgrid.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 96c0d17..59b06c0 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -313,4 +313,11 @@ class HPDGrid2D(object):
     def plot(self):
         x,y = pl.meshgrid(self.xvals,self.yvals)
         pl.figure()
-        pl.contour(x,y,self.logpdf,self.levels)
+        # The contoured array is indexed [y,x], and levels must increase.  For
+        # log steps, levels are for the density for log(x or y).
+        logdens = self.logpdf.transpose()
+        if not self.xlinstep:
+            logdens = logdens + log(x)
+        if not self.ylinstep:
+            logdens = logdens + log(y)
+        pl.contour(x,y,logdens,sorted(self.levels))
-- 
2.43.0


From ff9ad31cda3896c14a0c9506cd00e98f0d8a4264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 59/71] fix: a failing basis function left BA/BAObj with
 mixed-up residuals

---
 package/inference/gauss/vecba.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/package/inference/gauss/vecba.py b/package/inference/gauss/vecba.py
index b2f336a..0b152f7 100644
--- a/package/inference/gauss/vecba.py
+++ b/package/inference/gauss/vecba.py
@@ -98,14 +98,16 @@ class BA:
             args = list(args)
             args.append(aux)
             args = tuple(args)
+        modvals = zeros((self.M, self.N), float)
         for a in range(self.M):
             g = self.basis[a]
-            self.modvals[a,:] = g(*args) / self.sigs
+            modvals[a,:] = g(*args) / self.sigs
 
 #...    Calculate the metric and various derived quantities.  Store them
 #...    for possible future use before returning.
         self.metric, self.L, self.Jac, self.proj, self.ampl, self.suf =\
-            vba.metricAnalysis(self.modvals, self.std_smpls)
+            vba.metricAnalysis(modvals, self.std_smpls)
+        self.modvals = modvals
         self.Q = self.dsqr - self.suf
         self.pars = params
         self.Jac = 1. / self.Jac
@@ -229,13 +231,15 @@ class BAObj:
 #...    Evaluate the standardized models on the data, first calling the setup
 #...    function.
         self.obj.set_nonlin(*params)
+        modvals = zeros((self.M, self.N), float)
         for a in range(self.M):
-            self.modvals[a,:] = self.obj.std_basis[a]()
+            modvals[a,:] = self.obj.std_basis[a]()
 
 #...    Calculate the metric and various derived quantities.  Store them
 #...    for possible future use before returning.
         self.metric, self.L, self.Jac, self.proj, self.ampl, self.suf =\
-            vba.metricAnalysis(self.modvals, self.obj.std_smpls)
+            vba.metricAnalysis(modvals, self.obj.std_smpls)
+        self.modvals = modvals
         self.Q = self.dsqr - self.suf
         self.pars = params
         self.Jac = 1. / self.Jac
-- 
2.43.0


From 1a02817070183ca77e86f5d38a99c2e7abd5483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 60/71] fix: subset sampling passed the full RNG state to the
 sampler, and lost part

---
 package/inference/mc/population.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 3e105cf..ce4d49d 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -93,7 +93,8 @@ class Population(object):
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
-        set_rng_state(*random.get_state())
+        rng_state = random.get_state()
+        set_rng_state(*rng_state[:3])
         if self.equiprob:
             pool = arange(self.npopn)
             indices = equalprob(nsamp, pool)
@@ -125,7 +126,7 @@ class Population(object):
             self.ntry, sindices = self.sampler.samplenr()
             indices = [self.sort_indices[i] for i in sindices]
         result = [self.items[i] for i in indices]
-        random.set_state(get_rng_state())
+        random.set_state(list(get_rng_state()) + list(rng_state[3:]))
         return result
 
     def subset_pps5(self, nsamp):
@@ -140,7 +141,8 @@ class Population(object):
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
-        set_rng_state(*random.get_state())
+        rng_state = random.get_state()
+        set_rng_state(*rng_state[:3])
         if self.equiprob:
             pool = arange(self.npopn)
             indices = equalprob(nsamp, pool)
@@ -178,7 +180,7 @@ class Population(object):
             # Note the 5-table version returns unsorted indices.
             # indices = [self.sort_indices[i] for i in sindices]
         result = [self.items[i] for i in indices]
-        random.set_state(get_rng_state())
+        random.set_state(list(get_rng_state()) + list(rng_state[3:]))
         return result
 
 
-- 
2.43.0


From fb17582f06f47280bdc201f131da31bf28f539eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 61/71] fix: subsets of equal-probability populations used an
 undefined name

---
 package/inference/mc/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index ce4d49d..056c98e 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -6,7 +6,7 @@ Classes and functions for describing and sampling discrete populations.
 
 __author__ = "Tom Loredo"
 
-from numpy import array, random
+from numpy import arange, array, random
 from _ppssampler import _ppssampler, equalprob
 from _ppssampler import set_rng_state, get_rng_state
 from inference.utils.pl import pl
-- 
2.43.0


From 6c3a00c8069508fa44bcb7cac1a6f16392e90e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 62/71] fix: Population1D failed when given errors (array
 compared to None)

---
 package/inference/mc/population.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 056c98e..0ffa9b5 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -195,7 +195,7 @@ class Population1D(Population):
         indices = array(vals).argsort()
         self.vals = vals[indices].copy()
         self.weights = array(weights)[indices].copy()
-        if err == None:
+        if err is None:
             self.err = None
         else:
             self.err = array(err)[indices].copy()
@@ -225,7 +225,7 @@ class Population1D(Population):
         # The last step is zero.
         absc.append(end)
         ord.append(0.)
-        if self.err == None:
+        if self.err is None:
             return array(absc), array(ord)
         else:
             # For error bars, just copy the stored errors in the middle of
@@ -248,10 +248,10 @@ class Population1D(Population):
             start = self.vals[0]
         if end is None:
             end = self.vals[-1]
-        if self.err == None:
+        if self.err is None:
             a, o = self.haz_pts(start, end)
         else:
             a, o, ea, eo, ee = self.haz_pts(start, end)
         pl.plot(a, o, 'b-', linewidth=2)
-        if self.err != None:
+        if self.err is not None:
             pl.errorbar(ea, eo, ee, fmt='o', markersize=0)
-- 
2.43.0


From 574419f6eedbf82bdd5edf85f12008d79d161847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 63/71] fix: PWLinear.pdf raised IndexError at the upper end of
 the domain

---
 package/inference/mc/pwlinear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index 398334f..1d29c9a 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -208,6 +208,7 @@ class PWLinear(object):
         # Handle even step size case.
         elif self.step == 'lin':
             i = region[0] + int((x - region[2])/self.delta)
+            i = min(i, region[1]-1)  # x may be the upper end of the region
             return self.pdf_vals[i] + \
                 (self.pdf_vals[i+1]-self.pdf_vals[i]) * \
                 (x - self.absc[i])/(self.absc[i+1] - self.absc[i])
-- 
2.43.0


From 5b0fa1e3d0190b0b43f588798fd61d05f4b657ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 64/71] fix: PWLinear refused lists of values and truncated
 integer log values

---
 package/inference/mc/pwlinear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index 1d29c9a..61b8c41 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -1,5 +1,5 @@
 from numpy import linspace, concatenate, zeros, sqrt, log, exp
-from numpy import iterable, empty, any
+from numpy import array, iterable, empty, any
 from numpy.random import rand
 from .population import Population
 
@@ -40,6 +40,7 @@ class PWLinear(object):
             maximum density will be treated as zero.  Must be nonzero if
             `logvals` is True.
         """
+        vals = array(vals, float)
         # Define the domain and abscissas.
         if not (lo is None) and not (hi is None):
             if step != 'lin':
-- 
2.43.0


From 0cdd7aa2e1d87452cdc51a52cd36cd471c4ab94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:14 +0000
Subject: [PATCH 65/71] fix: PWLinear samples left nearly flat intervals
 (cancellation)

---
 package/inference/mc/pwlinear.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index 61b8c41..9eb5eb6 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -143,29 +143,19 @@ class PWLinear(object):
             index = self.popn.sample(1)[0]
             lo, hi = self.nz_intvls[index]
             plo, phi = self.nz_pdf[index]
-            if plo==phi:  # handle flat intervals
-                # print 'flat:', index, lo, hi, lo + (hi-lo)*rand()
-                return lo + (hi-lo)*rand()
-            else:
-                r = (hi-lo)/(phi-plo)
-                return lo - r*plo + r*sqrt(plo**2 + (phi**2 - plo**2)*rand())
-                # return self.nz_centers[index]
+            # This form is accurate for (nearly) flat intervals; u is in (0,1].
+            u = 1. - rand()
+            return lo + (hi-lo)*u*(plo+phi) / \
+                (plo + sqrt(plo**2 + (phi**2 - plo**2)*u))
+            # return self.nz_centers[index]
         else:
             indices = self.popn.sample(n)
             lo, hi = self.nz_intvls[indices,0], self.nz_intvls[indices,1]
             plo, phi = self.nz_pdf[indices,0], self.nz_pdf[indices,1]
-            flat = (phi==plo).nonzero()[0]  # id the flat intervals
-            r = (hi-lo)/(phi-plo)  # will be NaN for flat intervals
-            u = rand(n)
-#             if len(flat) != 0:
-#                 print plo**2 + (phi**2 - plo**2)*u
-#                 print r
-#                 print indices
-#                 print phi-plo
-            vals = lo - r*plo + r*sqrt(plo**2 + (phi**2 - plo**2)*u)
-            if len(flat) != 0:
-                vals[flat] = lo[flat] + (hi[flat]-lo[flat])*u[flat]
-            return vals
+            # This form is accurate for (nearly) flat intervals; u is in (0,1].
+            u = 1. - rand(n)
+            return lo + (hi-lo)*u*(plo+phi) / \
+                (plo + sqrt(plo**2 + (phi**2 - plo**2)*u))
             # return self.nz_centers[indices]
 
     def pdf(self, x):
-- 
2.43.0


From 385a1066110b5c716933adcb154c2c70326f02ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:10 +0000
Subject: [PATCH 66/71] fix: a refused set_params left some params changed

set_params changed params one by one, and raised for the first that was
stepping or whose stored value was out of range, leaving those before it
changed.  Verify the request first.
---
 package/inference/pie/inference_base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index f8fc210..ca25a4d 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -337,14 +337,20 @@ class Inference(HasAutoNamed):
         This is valid only if all params are either fixed or varying."""
         # *** Should this just skip stepped params rather than quit?
         # *** Should it check there are no "extras" in the passed pv?
+        # Verify everything before changing any param.
+        for name in self.params:
+            param = getattr(self, name)
+            if param.status != fixed and param.status != varying:
+                raise ParamError('Use set_params only when params are fixed or varying!')
+            value = getattr(pv, name)
+            if param.bounded and not (value >= param.lo and value <= param.hi):
+                raise ParamRangeError("Value out of parameter's allowed range!")
         for name in self.params:
             param = getattr(self, name)
             if param.status == fixed:
                 param.fix(getattr(pv,name))
-            elif param.status == varying:
-                param.vary(getattr(pv,name))
             else:
-                raise ParamError('Use set_params only when params are fixed or varying!')
+                param.vary(getattr(pv,name))
 
     # *** Make versions of show*() that return strings.
 
-- 
2.43.0


From 353ed10750567e0956da5a54460ec0426d2fb4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:43 +0000
Subject: [PATCH 67/71] fix: aligned definitions, docstrings and local
 variables shuffled parameters

---
 package/inference/pie/inference_base.py | 82 +++----------------------
 1 file changed, 9 insertions(+), 73 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index ca25a4d..a9ac1d7 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -2,8 +2,6 @@
 Utilities and base class for inferences.
 """
 
-import inspect
-
 from .param import *
 from .autoname import HasAutoNamed
 from .signalmodel import SignalModel, StopStepping
@@ -85,18 +83,13 @@ class Inference(HasAutoNamed):
         # *** Provide hooks for storing state or calculating candidate state
         # before storing it, to facilitate MCMC.
 
-        # Reorder the param names associated with this inference to reflect
-        # the order in the source code (the metaclass will order them in a
-        # shuffled order, the order of keys in the class dict).
-        # First, get the SignalModel and Predictors mixin classes.
+        # Get the SignalModel and Predictors mixin classes.
         for cls in self.__class__.__bases__:
             if issubclass(cls, SignalModel):
                 self.signal_class = cls
             elif issubclass(cls, PredictorSet):
                 self.pred_class = cls
         # Get the names of params and predictors from the mixins.
-        # Get them from source if available, to preserve the order
-        # in which the user defined them.
         # Be careful gathering params; the PredictorSet mixin class
         # may have params.
         try:
@@ -116,73 +109,16 @@ class Inference(HasAutoNamed):
             raise InferenceError('A parameter name is duplicated within this inference!')
 
     def _get_signal_names(self, signal_params):
-        """Use the source for the SignalModel and Predictors mixins to
-        fix the order of param and predictor names.  If source is
-        unavailable, just grab the names from the mixin class dicts."""
-        # Be careful gathering params; the Predictors mixin class
-        # may have params.
-        oparams = []
-        try:
-            source = inspect.getsourcelines(self.signal_class)[0]
-            for line in source:
-                line = line.strip()
-                for param in signal_params:
-                    # *** Use a regexp here to match any white space b/4 '='.
-                    if line.startswith(param+' =') or line.startswith(param+'='):
-                        oparams.append(param)
-                        signal_params.remove(param)
-            # Params the source search missed follow in the order of definition.
-            oparams.extend(signal_params)
-        except IOError:  # Only in the unlikely event of interactive model def'n
-            print('Could not locate SignalModel source; proceeding with unordered params.')
-            oparams = self.signal_class.param_names[:]
-        except TypeError:  # This is needed due to an apparent bug in inspect (failure can raise TypeError).
-            print('Could not locate SignalModel source; proceeding with unordered params.')
-            print('(Note: This may be due to a bug in inspect.py)')
-            oparams = self.signal_class.param_names[:]
-        return oparams
+        """Return the names of the params of the SignalModel mixin, in the
+        order of definition."""
+        # The mixin gathers names from its class dict, which keeps the order
+        # of definition.
+        return list(signal_params)
 
     def _get_pred_names(self, pred_params):
-        """Use the source for the SignalModel and Predictors mixins to
-        fix the order of param and predictor names.  If source is
-        unavailable, just grab the names from the mixin class dicts."""
-        # Be careful gathering params; the Predictors mixin class
-        # may have params.
-        oparams = []
-        try:
-            source = inspect.getsourcelines(self.pred_class)[0]
-            if pred_params:
-                for line in source:
-                    line = line.strip()
-                    for param in pred_params:
-                        if line.startswith(param+' =') or line.startswith(param+'='):
-                            oparams.append(param)
-                            pred_params.remove(param)
-                # Params the source search missed follow in the order of definition.
-                oparams.extend(pred_params)
-            # Now do the same to get the Predictor order.
-            opreds = []
-            preds = self.pred_class.predictor_names[:]
-            for line in source:
-                line = line.strip()
-                for pred in preds:
-                    if line.startswith(pred+' =') or line.startswith(pred+'='):
-                        opreds.append(pred)
-                        preds.remove(pred)
-            opreds.extend(preds)
-        except IOError:  # Only in the unlikely event of interactive pred. def'n
-            print('Could not locate PredictorSet source; proceeding with unordered params.')
-            oparams = list(getattr(self.pred_class, 'param_names', []))
-            opreds = self.pred_class.predictor_names[:]
-        except:  # This is needed due to an apparent bug in inspect (failure can raise TypeError).
-            print('Could not locate PredictorSet source; proceeding with unordered params.')
-            oparams = list(getattr(self.pred_class, 'param_names', []))
-            opreds = self.pred_class.predictor_names[:]
-        return oparams, opreds
-        # Make sure params are unique; i.e., that the Predictors class
-        # hasn't duplicated a param name.
-        if len(set(self.params)) != len(self.params):
-            raise InferenceError('A parameter name is duplicated within this inference!')
+        """Return the names of the params and predictors of the PredictorSet
+        mixin, in the order of definition."""
+        return list(pred_params), list(self.pred_class.predictor_names)
 
     def _on_param_status_change(self, param, old, new):
         """Maintain lists of fixed, varying, and stepping variables. Initialize
-- 
2.43.0


From 48ca1952270dd16ac8a3ab03b8685fc603a32e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:02 +0000
Subject: [PATCH 68/71] fix: the coordinate read-out gave values up to 1.5
 steps left of and below the grid

---
 package/inference/utils/plot_bivar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/plot_bivar.py b/package/inference/utils/plot_bivar.py
index c1cf865..2f892c4 100644
--- a/package/inference/utils/plot_bivar.py
+++ b/package/inference/utils/plot_bivar.py
@@ -140,8 +140,8 @@ def plot_bivar(x, y, logpdf, iorder='xy', levels=None, plevels=None, cross=None,
         ny, nx = data.shape
         dx = (xhi-xlo)/(nx-1.)
         dy = (yhi-ylo)/(ny-1.)
-        col = int((x-xlo)/dx+0.5)
-        row = int((y-ylo)/dy+0.5)
+        col = int(floor((x-xlo)/dx+0.5))
+        row = int(floor((y-ylo)/dy+0.5))
         if col>=0 and col<nx and row>=0 and row<ny:
             z = data[row,col]
             return 'x=%1.4f, y=%1.4f, z=%1.4f'%(x, y, z)
-- 
2.43.0


From 659db64ecbeaeae19ba33cbabe2eb4a5f434e674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:54 +0000
Subject: [PATCH 69/71] fix: logarithmic grids over negative numbers were never
 refined

---
 package/inference/grid/grid1d.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index a64365c..ca7ca50 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -324,7 +324,8 @@ class RefinedIntervalList1D:
         if hi != hi_int[1]:  # if not lo, it's within the grid space; set to hi
             hi = hi_int[2]
         # Test if resolved, in terms of the step (in log(x) for log intervals).
-        if 5*step > int_lo.step:  # resolved
+        # (Steps are negative for log intervals of negative numbers.)
+        if 5*abs(step) > abs(int_lo.step):  # resolved
             n = self._numPts(lo, hi, step)
         step = self._stepSize(lo, hi, n)
 
@@ -332,7 +333,7 @@ class RefinedIntervalList1D:
         # unless it undersamples the interval.  Be careful of it exactly matching
         # a boundary, in which case fewer inserts are needed.
         if nlo == nhi:
-            if step >= int_lo.step:  # undersampled; ignore the new interval
+            if abs(step) >= abs(int_lo.step):  # undersampled; ignore the new interval
                 return
             self._del(nlo)
             if lo > int_lo.lo:
@@ -348,7 +349,7 @@ class RefinedIntervalList1D:
 
         # Otherwise, we have to break up the intervals containing the boundaries,
         # and possibly resample intervals completely covered by the new one.
-        if (step < int_lo.step):
+        if abs(step) < abs(int_lo.step):
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
@@ -358,7 +359,7 @@ class RefinedIntervalList1D:
             m = self._numPts(lo, int_lo.hi, step)
             self._insert(nlo, self._interval(lo, int_lo.hi, m))
             nlo = nlo + 1
-        if step < int_hi.step:
+        if abs(step) < abs(int_hi.step):
             self._del(nhi)
             m = self._numPts(int_hi.lo, hi, step)
             self._insert(nhi, self._interval(int_hi.lo, hi, m))
@@ -367,7 +368,7 @@ class RefinedIntervalList1D:
                 self._insert(nhi+1, self._interval(hi, int_hi.hi, m))
                 # We needn't update nhi here since range won't include it.
         for i in range(nlo, nhi):
-            if self.ilist[i].step > step:
+            if abs(self.ilist[i].step) > abs(step):
                 n = self._numPts(self.ilist[i].lo, self.ilist[i].hi,
                                  step)
                 self.ilist[i].resample(n)
-- 
2.43.0


From d186626a0c4634bf9465bf2c748ad85fcf01a6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:11 +0000
Subject: [PATCH 70/71] fix: observed information above 1e30 was garbage

The extrapolation compares its errors with an initial 'big' of 1e30, so that
no result was ever set for the larger second derivatives of parameters with
small units.
---
 package/inference/deriv/_obsinfo.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/deriv/_obsinfo.f b/package/inference/deriv/_obsinfo.f
index acfe4ee..520d22b 100644
--- a/package/inference/deriv/_obsinfo.f
+++ b/package/inference/deriv/_obsinfo.f
@@ -290,7 +290,7 @@ c
 c       Adapted from Numerical Recipes' DFRIDR algorithm.
 
         real*8 big
-        parameter (big = 1.e30)
+        parameter (big = 1.d300)
 
         real*8 h, rat, y(*), result, err
         real*8 con, con2, errt, fac, hh, a(n,n)
-- 
2.43.0


From 86e9a8479f139c1d013939b92f707f91abb556d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:51 +0000
Subject: [PATCH 71/71] fix: start the search for the critical HPD level at the
 mode of the gridded density

For log steps the regions refer to x*p(x), whose maximum can be many e-folds
from 0; the search then started where the content is 1 up to roundoff, which
could keep it from ever bracketing the level.
---
 package/inference/grid/hpd.py     | 4 ++++
 package/inference/grid/hpdgrid.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index ac7f8e6..ac0bf01 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -166,6 +166,8 @@ class HPD1D(object):
         else:
             lr1 = log(prob2ratio(1, p))
         # Use the guess to bracket the solution and then solve.
+        # For log steps, the mode of the density for log(x) need not be at 0.
+        lr1 = lr1 + log(self.spdf.max())
         lr2 = lr1 - 0.1
         # print 'Guesses:', lr1, lr2
         self._target = p
@@ -276,6 +278,8 @@ class HPD2D(object):
             lr1 = log(prob2ratio(1, p))
         p = float(p)  # Otherwise it may be a scalar array.
         # Use this to bracket the solution and then solve.
+        # For log steps, the mode of the density for log(x) need not be at 0.
+        lr1 = lr1 + log(self.spdf.max())
         lr2 = lr1 - 0.1
         # print 'Guesses:', lr1, lr2
         self._target = p
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 59b06c0..c2b9b05 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -176,6 +176,8 @@ class HPDGrid1D(object):
             lr1 = log(prob2ratio(1, p))
         # p = float(p)  # Old workaround for a now-fixed scalar array bug.
         # Use the guess to bracket the solution and then solve.
+        # For log steps, the mode of the density for log(x) need not be at 0.
+        lr1 = lr1 + log(self.spdf.max())
         lr2 = lr1 - 0.1
         # print 'Guesses:', lr1, lr2
         self._target = p
@@ -294,6 +296,8 @@ class HPDGrid2D(object):
             lr1 = log(prob2ratio(1, p))
         p = float(p)  # Otherwise it may be a scalar array.
         # Use this to bracket the solution and then solve.
+        # For log steps, the mode of the density for log(x) need not be at 0.
+        lr1 = lr1 + log(self.spdf.max())
         lr2 = lr1 - 0.1
         # print 'Guesses:', lr1, lr2
         self._target = p
-- 
2.43.0

