From 64caabf89c10d0c8a4ddf414aefb9d26b2f313d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 01/41] fix: use int() in round_significant, np.int was removed
 from numpy

Every comparison of result files reported FAIL for every value.
---
 src/emva1288/process/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 8464780..246c055 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -512,7 +512,7 @@ def round_significant(v, sig=SIGNIFICANT_DIGITS):
     '''
     if v == 0.0:
         return 0.0
-    return round(v, sig - np.int(np.floor(np.log10(np.abs(v)))) - 1)
+    return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)
 
 
 round_array = np.vectorize(round_significant)
-- 
2.43.0


From 3d4e8c9208897f1120e167805778085bf96d93e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 02/41] fix: parse xml strings in xml_to_dict

lxml's ElementTree is a function without fromstring(), so strings were
never accepted.
---
 src/emva1288/process/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 246c055..ac653fb 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -462,7 +462,7 @@ def xml_to_dict(xml):
         if os.path.isfile(xml):
             tree = etree.parse(xml)
         else:
-            tree = etree.ElementTree.fromstring(xml)
+            tree = etree.ElementTree(etree.fromstring(xml))
     except:
         print('Problems loading XML')
         return None
-- 
2.43.0


From 3fc148abb7a63768616a1523ab3ae2961040dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 03/41] fix: report missing and NaN values as equal in
 compare_xml

A result without value (no pixel area) or NaN in both files was marked
FAIL, even when comparing a file with itself.
---
 src/emva1288/process/routines.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index ac653fb..faa4bf4 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -510,8 +510,8 @@ def round_significant(v, sig=SIGNIFICANT_DIGITS):
     '''
     Round up to the given significant digits, used for comparison
     '''
-    if v == 0.0:
-        return 0.0
+    if v == 0.0 or np.isnan(v):
+        return v
     return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)
 
 
@@ -573,7 +573,9 @@ def compare_xml(x1, x2, filename=None):
             # If both are values
             if v1 is not None and v2 is not None:
                 try:
-                    r = (round_significant(v1) - round_significant(v2)) == 0.0
+                    r = np.array_equal(round_significant(v1),
+                                       round_significant(v2),
+                                       equal_nan=True)
                 except:
                     r = False
                 t1 = v1
@@ -593,8 +595,9 @@ def compare_xml(x1, x2, filename=None):
                     # loop throught the keys
                     for k in k1:
                         try:
-                            r = np.max(np.abs(round_array(a1[k]) -
-                                              round_array(a2[k]))) == 0.0
+                            r = np.array_equal(round_array(a1[k]),
+                                               round_array(a2[k]),
+                                               equal_nan=True)
                         except:
                             r = False
 
@@ -603,7 +606,10 @@ def compare_xml(x1, x2, filename=None):
             else:
                 t1 = str(v1)
                 t2 = str(v2)
-                r = False
+                # values that are None in both files are the same
+                r = (methodname in m1 and methodname in m2 and
+                     v1 is None and v2 is None and
+                     a1 is None and a2 is None)
 
             s += '{0:<20}{1:<20}'.format(t1, t2)
             if r:
-- 
2.43.0


From 3eeeb6447d65eb8261afc3410ff76124b5487bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 04/41] fix: plot all the tests given to Plotting1288

Only the last test was kept.
---
 src/emva1288/process/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 3ab6bb9..5344324 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -848,7 +848,7 @@ class Plotting1288(object):
         for test in tests:
             if not getattr(test, 'id', False):
                 test.id = id(test)
-        self.tests.append(test)
+            self.tests.append(test)
 
     def plot(self, *plots):
         """Plot EMVA1288 plots
-- 
2.43.0


From 844159ef08c4e2abddf97414dafab8bcc4a650cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 05/41] fix: raise the decoding error for descriptors that are
 not text

Building UnicodeDecodeError from a string raised a TypeError instead, and
the descriptor file was never closed.
---
 src/emva1288/process/parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/parser.py b/src/emva1288/process/parser.py
index 6747dde..e1ff2a1 100755
--- a/src/emva1288/process/parser.py
+++ b/src/emva1288/process/parser.py
@@ -235,7 +235,10 @@ class ParseEmvaDescriptorFile(object):
         try:
             self._lines = [x.strip() for x in f.readlines() if x.strip() and
                            not x.strip().startswith('#')]
-        except UnicodeDecodeError:  # pragma: no cover
+        except UnicodeDecodeError as e:  # pragma: no cover
             # If there is an unknown character in the file, speak it!
-            raise UnicodeDecodeError("File: '%s', has non-utf8 characters."
+            raise UnicodeDecodeError(e.encoding, e.object, e.start, e.end,
+                                     "File: '%s', has non-utf8 characters."
                                      "Find them and kill them!" % filename)
+        finally:
+            f.close()
-- 
2.43.0


From 0ad5372855cf0c1120135a8010834927c7c68bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 06/41] fix: raise the intended ValueError for a Qe of wrong
 dimensions

---
 src/emva1288/camera/routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index 5d6d166..bd09c57 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -230,8 +230,8 @@ class Qe(object):
 
         if self._qe.shape != (self._height, self._width, len(self._w)):
             raise ValueError('qe dimensions mismatch %s != %s' %
-                             self._qe.shape,
-                             (self._height, self._width, len(self._w)))
+                             (self._qe.shape,
+                              (self._height, self._width, len(self._w))))
 
         if filter is not None:
             self._qe *= filter
-- 
2.43.0


From 59325fa2a37188000daff4d479e7562d554fdcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 07/41] fix: do not modify the caller's array when applying a
 filter in Qe

---
 src/emva1288/camera/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index bd09c57..5fc27ad 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -234,7 +234,7 @@ class Qe(object):
                               (self._height, self._width, len(self._w))))
 
         if filter is not None:
-            self._qe *= filter
+            self._qe = self._qe * filter
 
     @property
     def w(self):
-- 
2.43.0


From 8a58e9d8adea3fcf3e7f54fb383643864046ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 08/41] fix: fill the whole frame in array_tile

For sizes that are not a multiple of the pattern the returned bayer filter
was smaller than the requested frame.
---
 src/emva1288/camera/routines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index 5fc27ad..06f4e7e 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -201,7 +201,9 @@ def get_bayer_filter(t00, t01, t10, t11, width, height, w):
 def array_tile(array, height, width):
     h, w = ((array.shape[:2]) if array.ndim == 3 else (1, array.shape[-1])
             if array.ndim == 2 else (1, 1))
-    return np.tile(array, (int(height/h), int(width/w), 1))
+    h_r = int(np.ceil(height / h))
+    w_r = int(np.ceil(width / w))
+    return np.tile(array, (h_r, w_r, 1))[:height, :width]
 
 
 def poisson(x, loc, mu=1000):
-- 
2.43.0


From 47ae099f745517ad7e3b15d41b297aed1293af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 09/41] fix: use the given radiance limits in PointsGenerator

The documented radiance_min and radiance_max were always overwritten.
---
 src/emva1288/camera/points_generator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/camera/points_generator.py b/src/emva1288/camera/points_generator.py
index 6cbe857..a936844 100644
--- a/src/emva1288/camera/points_generator.py
+++ b/src/emva1288/camera/points_generator.py
@@ -73,8 +73,10 @@ class PointsGenerator:
             self._cam.blackoffset = self._blackref
             m = self._cam.grab(0).mean()
             target = (self._cam.img_max - m) / self._steps + m
-            self._radiance_min = self._cam.get_radiance_for(mean=target)
-            self._radiance_max = self._cam.get_radiance_for()
+            if self._radiance_min is None:
+                self._radiance_min = self._cam.get_radiance_for(mean=target)
+            if self._radiance_max is None:
+                self._radiance_max = self._cam.get_radiance_for()
 
         # By default, an exposure time variation data points
         # If exposure fixed is given, it is photons variation
@@ -104,8 +106,8 @@ class PointsGenerator:
             # only one exposure time
             rad_i = np.ones((self._cam._height, self._cam._width,
                             len(self._cam.qe.w)))
-            factors = np.linspace(self._radiance_min.mean(),
-                                  self._radiance_max.mean(),
+            factors = np.linspace(np.mean(self._radiance_min),
+                                  np.mean(self._radiance_max),
                                   self._steps)
             radiances = [rad_i * factor for factor in factors]
             # round to only have one decimal
-- 
2.43.0


From a627895722215ef90b387255766a8ad71d47acda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 10/41] fix: use dark electrons of the given exposure in
 get_radiance_for

---
 src/emva1288/camera/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/camera/camera.py b/src/emva1288/camera/camera.py
index 5dd0bc5..8763163 100644
--- a/src/emva1288/camera/camera.py
+++ b/src/emva1288/camera/camera.py
@@ -390,7 +390,7 @@ class Camera(object):
             mean = self.img_max
         if not exposure:
             exposure = self.exposure
-        ud = self._u_therm()
+        ud = self._u_i() * exposure / (10 ** 9)
         ue = ((mean / self.K) - ud)/len(self._qe.w)
         ue *= np.ones(len(self._qe.w))
         up = np.zeros((self.height, self.width, len(self._qe.w)))
-- 
2.43.0


From b62a0adc580431e26c10ddcc127839ae4785e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 11/41] fix: detect a saturation at the second point

At the first point the search compared with the second one instead of a
predecessor, so a maximum at the second point was never found.
---
 src/emva1288/process/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 051689f..51b8dea 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -103,11 +103,11 @@ class Results1288(object):
         for i in range(len(s2_y) - 1, -1, -1):
             # Check that is not a local max
             if (s2_y[i] >= max_) or \
-               (s2_y[abs(i - 1)] >= max_):
+               (s2_y[max(i - 1, 0)] >= max_):
                 max_ = s2_y[i]
                 max_i = i
             elif (s2_y[i] < max_) and \
-                 (s2_y[abs(i - 1)] < max_):
+                 (s2_y[max(i - 1, 0)] < max_):
                 break
 
         self._index_u_ysat = max_i
-- 
2.43.0


From 711daeb907f20ab144f6f3776085af0893890bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 12/41] fix: accept the first point as forced saturation index

---
 src/emva1288/process/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 51b8dea..bcfd27d 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -91,7 +91,7 @@ class Results1288(object):
             :Short: Saturation index
         """
 
-        if self._index_u_ysat:
+        if self._index_u_ysat is not None:
             return self._index_u_ysat
 
         max_ = 0
-- 
2.43.0


From 0dc5afe843d8a74076ce2a95a96783e037b18aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 13/41] fix: leave masked pixels out of the histograms

np.histogram ignores masks, so masked pixels were counted, and the
accumulated histograms used them in the total number of pixels.
---
 src/emva1288/process/results.py  | 4 ++--
 src/emva1288/process/routines.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index bcfd27d..5f1edd3 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -1164,7 +1164,7 @@ class Results1288(object):
         # Perform the cumulative summation
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
         # we want it as percentage of pixels
-        h['values'] = 100 * h['values'] / y.size
+        h['values'] = 100 * h['values'] / np.ma.count(y)
 
         return h
 
@@ -1219,7 +1219,7 @@ class Results1288(object):
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
 
         # we want it as percentage of pixels
-        h['values'] = 100 * h['values'] / y.size
+        h['values'] = 100 * h['values'] / np.ma.count(y)
 
         return h
 
diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index faa4bf4..dc2868e 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -297,7 +297,8 @@ def Histogram1288(img, Qmax):
 #         H[q] += 1
 #############################################
 
-    H, _b = np.histogram(y, B, range=(ymin, ymax))
+    # np.histogram ignores the mask of masked arrays
+    H, _b = np.histogram(np.ma.compressed(y), B, range=(ymin, ymax))
 
     return {'bins': np.asarray(B[:-1], dtype=np.float64), 'values': H, 'model': normal}
 
-- 
2.43.0


From bb4e4ea2e558c016c720939e42caa234ea1a585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 14/41] fix: frequency axis of the spectrograms

The half spectrum has cols // 2 + 1 points from 0 to 0.5 cycles/pixel, the
axis ended before and shifted every frequency.
---
 src/emva1288/process/routines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index dc2868e..35bcb31 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -245,7 +245,8 @@ def _row_wise_compress(img):
 def GetFrecs(fft):
     n = len(fft)
     x = np.arange(n)
-    x = x * 1.0 / (2 * n)
+    # the spectrum goes from zero to the nyquist frequency, both included
+    x = x * 1.0 / (2 * max(n - 1, 1))
     return x
 
 
-- 
2.43.0


From 8ff9cc5efcee7c9b1ae80babd54a77b6a121b2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 15/41] fix: PRNU spectrograms in percent

The curves were sqrt(power / mean), neither DN nor the % of the label and
of the PRNU line in the same axes.
---
 src/emva1288/process/plotting.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 5344324..780497f 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -382,10 +382,11 @@ class PlotHorizontalSpectrogramPRNU(Emva1288Plot):
         data = data / test.spatial['L']
         data_mean = np.mean(data)
 
-        spectrogram = routines.FFT1288(data) / data_mean
+        spectrogram = routines.FFT1288(data)
 
+        # in % of the mean, as the PRNU
         ax.plot(routines.GetFrecs(spectrogram),
-                (np.sqrt(spectrogram)),
+                100 * np.sqrt(spectrogram) / data_mean,
                 label='Data',
                 gid='%d:data' % test.id)
 
@@ -450,10 +451,11 @@ class PlotVerticalSpectrogramPRNU(Emva1288Plot):
         data = test.spatial['sum'] - test.spatial['sum_dark']
         data = data / test.spatial['L']
         data_mean = np.mean(data)
-        spectrogram = routines.FFT1288(data, rotate=True) / data_mean
+        spectrogram = routines.FFT1288(data, rotate=True)
 
+        # in % of the mean, as the PRNU
         ax.plot((routines.GetFrecs(spectrogram)),
-                (np.sqrt(spectrogram)),
+                100 * np.sqrt(spectrogram) / data_mean,
                 label='Data',
                 gid='%d:data' % test.id)
 
-- 
2.43.0


From 7cbfafa44559955465a1811dc18a037be9175b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 16/41] fix: do not modify the caller's dicts in Report1288

Reusing them for a second report failed trying to copy the replaced files.
---
 src/emva1288/report/report.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index a196c0a..4407ddf 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -202,8 +202,9 @@ class Report1288(object):
 
         self.renderer = self.template_renderer()
         self.ops = []
-        self.marketing = marketing or info_marketing()
-        self.basic = basic or info_basic()
+        # copies, because the file names get replaced
+        self.marketing = dict(marketing or info_marketing())
+        self.basic = dict(basic or info_basic())
         self.setup = setup or info_setup()
         self.cover_page = cover_page
         self._make_dirs(outdir)
-- 
2.43.0


From 36c495d3597995b0aa873ec36ad1dbbb9c70db0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 17/41] fix: keep operation points apart when a dict is added
 twice

All of them ended with the id, results and plots of the last one.
---
 src/emva1288/report/report.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 4407ddf..bbef23a 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -374,6 +374,8 @@ class Report1288(object):
                :class:`~emva1288.process.results.Results1288` class.
         """
         n = len(self.ops) + 1
+        # copy, the same dict can be used to add more operation points
+        op = dict(op)
         op['id'] = 'OP%d' % (n)
         if not op['name']:
             op['name'] = op['id']
-- 
2.43.0


From a6583a5c708d89271f4ea605cb47af503dfce4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 18/41] fix: inject exactly the requested bad pixels

Positions were drawn with replacement, and the documented bad_value=None
raised a TypeError.
---
 src/emva1288/camera/bad_images.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/bad_images.py b/src/emva1288/camera/bad_images.py
index 0249389..02ac86f 100644
--- a/src/emva1288/camera/bad_images.py
+++ b/src/emva1288/camera/bad_images.py
@@ -19,12 +19,15 @@ def bad_pixel(cam, num_bad_pixel, bad_value=1):
     """
     # TODO: add error message if num_bad_pixel is higger than pixel_num
     # Set the bad value at the Full well capacity for the camera if 1.
+    if bad_value is None:
+        bad_value = 1
     bad_value = bad_value * cam._u_esat
     # Count the number of pixel in the camera
     pixel_num = cam.height * cam.width
     # Select the number of bad pixel in a 1D with number
     # for they futur position.
-    bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel)
+    bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel,
+                                          replace=False)
     # change the position in 1D to 2D.
     for i in bad_pixel_position:
         # Change the DSNU of the camera with the bad values
-- 
2.43.0


From d47cbfb0263f5adb98937e0079a11a7b0968c675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 19/41] fix: label the dark spatial variance as dark

---
 src/emva1288/process/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 5f1edd3..79b9ae9 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -765,7 +765,7 @@ class Results1288(object):
         .. emva1288::
             :Section: spatial
             :Short: Spatial variance from image
-            :Symbol: $s^2_{y}$
+            :Symbol: $s^2_{y.dark}$
             :Unit: DN2
         """
         return self.s_2_y_measured_dark - (self.sigma_2_y_stack_dark /
-- 
2.43.0


From e655c82b307bbc409e52d3c2bc6bffc68fedeab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 20/41] fix: compare infinite values in result files

---
 src/emva1288/process/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 35bcb31..c35937d 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -512,7 +512,7 @@ def round_significant(v, sig=SIGNIFICANT_DIGITS):
     '''
     Round up to the given significant digits, used for comparison
     '''
-    if v == 0.0 or np.isnan(v):
+    if v == 0.0 or not np.isfinite(v):
         return v
     return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)
 
-- 
2.43.0


From 7c65227abf9a25b348f2c7a5c717d93afd5f34e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 21/41] fix: print the vendor in the report header

---
 src/emva1288/report/templates/emvadatasheet.sty | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/report/templates/emvadatasheet.sty b/src/emva1288/report/templates/emvadatasheet.sty
index a531b4c..5f28f3a 100644
--- a/src/emva1288/report/templates/emvadatasheet.sty
+++ b/src/emva1288/report/templates/emvadatasheet.sty
@@ -22,7 +22,7 @@
 % Header
 \fancyhead{}%
 \fancyhead[LO,LE]{\includegraphics[height=12mm]{files/EMVA1288Logo.pdf}}
-\fancyhead[C]{\textbf{%{{ marketing.vendor %}} \, %{{ basic.model|missing %}}}}
+\fancyhead[C]{\textbf{%{{ basic.vendor|missing %}} \, %{{ basic.model|missing %}}}}
 \fancyhead[RE,RO]{\includegraphics[height=12mm]{%{{ marketing.logo %}}}}
 \renewcommand{\headrulewidth}{0.5pt}
 
-- 
2.43.0


From 68a93e947f35c38448ca3c56551fb021d74a6a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 22/41] fix: show the given missing plot icon

---
 src/emva1288/report/report.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index bbef23a..77af30f 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -294,8 +294,11 @@ class Report1288(object):
             self.marketing['missingplot'],
             'missingplot.pdf')
 
-        self.basic['qe_plot'] = uploaded_file(self.basic['qe_plot'],
-                                              'missingplot.pdf')
+        if self.basic['qe_plot']:
+            self.basic['qe_plot'] = uploaded_file(self.basic['qe_plot'],
+                                                  'missingplot.pdf')
+        else:
+            self.basic['qe_plot'] = self.marketing['missingplot']
 
     def _write_file(self, name, content):
         # write content into a file
-- 
2.43.0


From 78e5a6604e062f49eaa91a7a3e741c66fff98710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 23/41] fix: use the cover page of the marketing information

---
 src/emva1288/report/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 77af30f..cf105ea 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -206,7 +206,7 @@ class Report1288(object):
         self.marketing = dict(marketing or info_marketing())
         self.basic = dict(basic or info_basic())
         self.setup = setup or info_setup()
-        self.cover_page = cover_page
+        self.cover_page = cover_page or self.marketing.get('cover_page')
         self._make_dirs(outdir)
 
     @staticmethod
-- 
2.43.0


From c4a2ee94e1fa2efdf34f286d244bb7f068113967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 24/41] fix: PRNU histograms of stacks of different lengths

---
 src/emva1288/process/results.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 79b9ae9..0901ffe 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -1110,6 +1110,15 @@ class Results1288(object):
         return (np.sqrt(self.s_2_y_pixel - self.s_2_y_pixel_dark) * 100 /
                 (self.spatial['avg_mean'] - self.spatial['avg_mean_dark']))
 
+    def _bright_minus_dark(self):
+        """Integer image proportional to the average bright minus dark image,
+        and its scale.
+        """
+        L = np.lcm(self.spatial['L'], self.spatial['L_dark'])
+        y = (self.spatial['sum'] * (L // self.spatial['L']) -
+             self.spatial['sum_dark'] * (L // self.spatial['L_dark']))
+        return y, L
+
     @property
     def histogram_PRNU(self):
         """PRNU histogram.
@@ -1125,14 +1134,14 @@ class Results1288(object):
         """
 
         # For prnu, perform the convolution
-        y = self.spatial['sum'] - self.spatial['sum_dark']
+        y, L = self._bright_minus_dark()
         # Applying the filter on the image
         data = routines.high_pass_filter(y, 5)
         y = data['img']
 
         h = routines.Histogram1288(y, self._histogram_Qmax)
         # Rescale the bins
-        h['bins'] /= (self.spatial['L'] * data['multiplicator'])
+        h['bins'] /= (L * data['multiplicator'])
 
         return h
 
@@ -1151,7 +1160,7 @@ class Results1288(object):
         """
 
         # For prnu, perform the convolution
-        y = self.spatial['sum'] - self.spatial['sum_dark']
+        y, L = self._bright_minus_dark()
         data = routines.high_pass_filter(y, 5)
         y = data['img']
         # For the accumulated histogram substract the mean
@@ -1159,7 +1168,7 @@ class Results1288(object):
 
         h = routines.Histogram1288(y, self._histogram_Qmax)
         # Rescale the bins
-        h['bins'] /= (self.spatial['L'] * data['multiplicator'])
+        h['bins'] /= (L * data['multiplicator'])
 
         # Perform the cumulative summation
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
-- 
2.43.0


From 27d9cabe61923d8f1e4bcca4ce693dd2e29b7a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 25/41] fix: plot stacks of different lengths

---
 src/emva1288/process/plotting.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 780497f..dfa030b 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -378,8 +378,8 @@ class PlotHorizontalSpectrogramPRNU(Emva1288Plot):
     def plot(self, test):
         ax = self.ax
 
-        data = (test.spatial['sum'] - test.spatial['sum_dark'])
-        data = data / test.spatial['L']
+        data = (test.spatial['sum'] / test.spatial['L'] -
+                test.spatial['sum_dark'] / test.spatial['L_dark'])
         data_mean = np.mean(data)
 
         spectrogram = routines.FFT1288(data)
@@ -417,7 +417,7 @@ class PlotHorizontalSpectrogramDSNU(Emva1288Plot):
         ax = self.ax
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
-                                       n=test.spatial['L'])
+                                       n=test.spatial['L_dark'])
         ax.plot(routines.GetFrecs(spectrogram),
                 np.sqrt(spectrogram),
                 label='Data',
@@ -448,8 +448,8 @@ class PlotVerticalSpectrogramPRNU(Emva1288Plot):
 
     def plot(self, test):
         ax = self.ax
-        data = test.spatial['sum'] - test.spatial['sum_dark']
-        data = data / test.spatial['L']
+        data = (test.spatial['sum'] / test.spatial['L'] -
+                test.spatial['sum_dark'] / test.spatial['L_dark'])
         data_mean = np.mean(data)
         spectrogram = routines.FFT1288(data, rotate=True)
 
@@ -487,7 +487,7 @@ class PlotVerticalSpectrogramDSNU(Emva1288Plot):
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
                                        rotate=True,
-                                       n=test.spatial['L'])
+                                       n=test.spatial['L_dark'])
         ax.plot(routines.GetFrecs(spectrogram),
                 np.sqrt(spectrogram),
                 label='Data',
@@ -693,9 +693,8 @@ class ProfileBase(Emva1288Plot):
         ax = self.ax
         ax2 = self.ax2
 
-        L = test.spatial['L']
-        bimg = (test.spatial['sum'] - test.spatial['sum_dark']) / L
-        dimg = test.spatial['sum_dark'] / L
+        dimg = test.spatial['sum_dark'] / test.spatial['L_dark']
+        bimg = test.spatial['sum'] / test.spatial['L'] - dimg
         profiles = self.get_profiles(bimg, dimg)
 
         # to keep the lines number for legend
-- 
2.43.0


From 4a326fbbe9c4028021a574c893eed42b98713efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:18 +0000
Subject: [PATCH 26/41] fix: unit of the accumulated PRNU histogram plot

---
 src/emva1288/process/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index dfa030b..8746ed1 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -581,7 +581,7 @@ class PlotAccumulatedLogHistogramPRNU(Emva1288Plot):
     '''Create Accumulated log histogram PRNU plot'''
 
     name = 'Accumulated log histogram PRNU'
-    xlabel = 'Minimal deviation from the mean [%]'
+    xlabel = 'Minimal deviation from the mean [DN]'
     ylabel = 'Number of pixels'
     yscale = 'log'
 
-- 
2.43.0


From f698794011d085b77242cf1ef68f980e7a3ee138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 27/41] fix: label of the accumulated histogram plots, which
 show percentages

---
 src/emva1288/process/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 8746ed1..82b527b 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -562,7 +562,7 @@ class PlotAccumulatedLogHistogramDSNU(Emva1288Plot):
 
     name = 'Accumulated log histogram DSNU'
     xlabel = 'Minimal deviation from the mean [DN]'
-    ylabel = 'Number of pixels'
+    ylabel = 'Percentage of pixels [%]'
     yscale = 'log'
 
     def plot(self, test):
@@ -582,7 +582,7 @@ class PlotAccumulatedLogHistogramPRNU(Emva1288Plot):
 
     name = 'Accumulated log histogram PRNU'
     xlabel = 'Minimal deviation from the mean [DN]'
-    ylabel = 'Number of pixels'
+    ylabel = 'Percentage of pixels [%]'
     yscale = 'log'
 
     def plot(self, test):
-- 
2.43.0


From 45f94d6b79c7dcc925d5f164e74201d111b358c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 28/41] fix: keep uploaded report files of the same name apart

---
 src/emva1288/report/report.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index cf105ea..70c83c7 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -277,12 +277,18 @@ class Report1288(object):
         except FileExistsError:  # pragma: no cover
             pass
 
+        uploaded = []
+
         def uploaded_file(fname, default):
             if fname:  # pragma: no cover
-                shutil.copy(os.path.abspath(fname), upload_dir)
-                v = posixpath.join(
-                    'upload',
-                    os.path.basename(fname))
+                name = os.path.basename(fname)
+                # files of different folders can have the same name
+                while name in uploaded:
+                    name = '_' + name
+                uploaded.append(name)
+                shutil.copy(os.path.abspath(fname),
+                            os.path.join(upload_dir, name))
+                v = posixpath.join('upload', name)
             else:
                 v = posixpath.join('files', default)
             return v
-- 
2.43.0


From 547819afc55559b051ee875044331f39c7b0b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 29/41] fix: count histograms of small integer types without
 wrap-around

---
 src/emva1288/process/routines.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index c35937d..cb76f6d 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -252,6 +252,9 @@ def GetFrecs(fft):
 
 def Histogram1288(img, Qmax):
     y = np.ravel(img)
+    if np.issubdtype(y.dtype, np.integer):
+        # small integer types would wrap around
+        y = y.astype(np.int64)
 
     ymin = np.min(y)
     ymax = np.max(y)
-- 
2.43.0


From fa94c17cab5f575978f05590f67544652a53dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 30/41] fix: high-pass filter of small integer types without
 wrap-around

---
 src/emva1288/process/routines.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index cb76f6d..aafcb08 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -688,6 +688,10 @@ def high_pass_filter(img, dim):
     # Check validity of kernel size
     if not dim % 2:
         raise ValueError('The size of the highpass filter must be odd')
+    img = np.asanyarray(img)
+    if np.issubdtype(img.dtype, np.integer):
+        # small integer types would wrap around
+        img = img.astype(np.int64)
     # Initializing the kernel
     kernel = np.ones((dim, dim))
     sl = dim//2
-- 
2.43.0


From a65ab27ccc95b45d653d7ae82bea20539ec2a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 31/41] fix: a requested maximum black offset of zero is not
 the default

---
 src/emva1288/camera/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/camera/camera.py b/src/emva1288/camera/camera.py
index 8763163..aac976c 100644
--- a/src/emva1288/camera/camera.py
+++ b/src/emva1288/camera/camera.py
@@ -148,7 +148,7 @@ class Camera(object):
         self.K = K
 
         # A good gestimate for maximum blackoffset is 1/16th of the full range
-        if not blackoffset_max:
+        if blackoffset_max is None:
             blackoffset_max = self.img_max // 16
         self.__blackoffsets = np.linspace(blackoffset_min, blackoffset_max,
                                           num=blackoffset_steps)
-- 
2.43.0


From d5fb60509a373ed5b01353b3697297cfaf2936eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 32/41] fix: radiance for a requested mean of zero

---
 src/emva1288/camera/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/camera/camera.py b/src/emva1288/camera/camera.py
index aac976c..7101fb7 100644
--- a/src/emva1288/camera/camera.py
+++ b/src/emva1288/camera/camera.py
@@ -386,7 +386,7 @@ class Camera(object):
             The radiance at which, for the given saturation value and
             the given exposure time, the camera saturates.
         """
-        if not mean:
+        if mean is None:
             mean = self.img_max
         if not exposure:
             exposure = self.exposure
-- 
2.43.0


From b46a00611f2560e63673d0a0975096eff1179c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 33/41] fix: requested shortest exposure and black reference of
 zero

---
 src/emva1288/camera/points_generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/camera/points_generator.py b/src/emva1288/camera/points_generator.py
index a936844..d57518e 100644
--- a/src/emva1288/camera/points_generator.py
+++ b/src/emva1288/camera/points_generator.py
@@ -53,13 +53,17 @@ class PointsGenerator:
         """
         self._cam = cam
         self._steps = steps
-        self._exposure_min = exposure_min or self._cam.exposure_min
+        self._exposure_min = exposure_min
+        if exposure_min is None:
+            self._exposure_min = self._cam.exposure_min
         self._exposure_max = exposure_max or self._cam.exposure_max
         self._exposure = exposure_fixed
         self._radiance_min = radiance_min
         self._radiance_max = radiance_max
         self._gain = gain or self._cam.K
-        self._blackref = blackref or self._cam.blackoffset
+        self._blackref = blackref
+        if blackref is None:
+            self._blackref = self._cam.blackoffset
         if self._exposure is None:
             # Get radiance for saturation at maximal exposure time
             # Only if it is for an exposure time variation test
-- 
2.43.0


From 4f0b4a6b2033e54127a605788e8aba63fee4b7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 34/41] fix: bad pixels do not change the array the
 nonuniformity was given as

---
 src/emva1288/camera/bad_images.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/bad_images.py b/src/emva1288/camera/bad_images.py
index 02ac86f..b3f0df6 100644
--- a/src/emva1288/camera/bad_images.py
+++ b/src/emva1288/camera/bad_images.py
@@ -28,8 +28,11 @@ def bad_pixel(cam, num_bad_pixel, bad_value=1):
     # for they futur position.
     bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel,
                                           replace=False)
+    # copy, the array can be shared with the caller and with other cameras
+    dsnu = np.array(cam.DSNU, dtype=np.float64)
     # change the position in 1D to 2D.
     for i in bad_pixel_position:
         # Change the DSNU of the camera with the bad values
         # at the random position generated above.
-        cam.DSNU[i // cam.width, i % cam.width] = bad_value
+        dsnu[i // cam.width, i % cam.width] = bad_value
+    cam.DSNU = dsnu
-- 
2.43.0


From a214f8730ed1a766779f8a21e942cb428e9e4f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 35/41] fix: logarithmic histogram plots show the highest bin
 of every test

---
 src/emva1288/process/plotting.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 82b527b..495c433 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -516,6 +516,10 @@ class PlotLogarithmicHistogramDSNU(Emva1288Plot):
     ylabel = 'Number of pixels'
     yscale = 'log'
 
+    def setup_figure(self):
+        super(PlotLogarithmicHistogramDSNU, self).setup_figure()
+        self.max_values = []
+
     def plot(self, test):
         ax = self.ax
 
@@ -531,7 +535,8 @@ class PlotLogarithmicHistogramDSNU(Emva1288Plot):
 
         self.set_legend(ax)
 
-        ax.axis(ymin=1.0, ymax=np.max(hist['values']) * 2)
+        self.max_values.append(np.max(hist['values']))
+        ax.axis(ymin=1.0, ymax=max(self.max_values) * 2)
 
 
 class PlotLogarithmicHistogramPRNU(Emva1288Plot):
@@ -542,6 +547,10 @@ class PlotLogarithmicHistogramPRNU(Emva1288Plot):
     ylabel = 'Number of pixels'
     yscale = 'log'
 
+    def setup_figure(self):
+        super(PlotLogarithmicHistogramPRNU, self).setup_figure()
+        self.max_values = []
+
     def plot(self, test):
         ax = self.ax
         hist = test.histogram_PRNU
@@ -554,7 +563,8 @@ class PlotLogarithmicHistogramPRNU(Emva1288Plot):
                 label='Model')
 
         self.set_legend(ax)
-        ax.axis(ymin=0.5, ymax=np.max(hist['values']) * 2)
+        self.max_values.append(np.max(hist['values']))
+        ax.axis(ymin=0.5, ymax=max(self.max_values) * 2)
 
 
 class PlotAccumulatedLogHistogramDSNU(Emva1288Plot):
-- 
2.43.0


From 5ad90e19d8a7ef2717c48af2dd2a0c61b9886e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 36/41] fix: high pass filter of size one keeps the image size

---
 src/emva1288/process/routines.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index aafcb08..52fed1a 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -695,6 +695,8 @@ def high_pass_filter(img, dim):
     # Initializing the kernel
     kernel = np.ones((dim, dim))
     sl = dim//2
+    # without edges to remove, the slice goes up to the end
+    valid = slice(sl, -sl or None)
     if isinstance(img, np.ma.MaskedArray):
         # Saving the mask
         mask = np.ma.getmask(img)
@@ -710,7 +712,7 @@ def high_pass_filter(img, dim):
         # number of considred pixels
         value = convolve(value, kernel)
         # Slice off values that are invalid after the convolution
-        value = np.ma.MaskedArray(value, mask)[sl:-sl, sl:-sl]
+        value = np.ma.MaskedArray(value, mask)[valid, valid]
         # After applying the mask all the values should be equal. If not, the
         # filter is not bayer and will not work properly with this code
         if value.max() != value.min():
@@ -722,10 +724,10 @@ def high_pass_filter(img, dim):
         # Finally computing the filtering and slicing off the edges
         img = img.filled(0)
         img = convolve(img, kernel)
-        img = np.ma.array(img, mask=mask)[sl:-sl, sl:-sl]
+        img = np.ma.array(img, mask=mask)[valid, valid]
     else:
         # Set the kernel and compute, then slice off the edges
         kernel *= -1
         kernel[sl, sl] = dim**2-1
-        img = convolve(img, kernel)[sl:-sl, sl:-sl]
+        img = convolve(img, kernel)[valid, valid]
     return {'img': img, 'multiplicator': kernel[sl, sl] + 1}
-- 
2.43.0


From 90e030cd43f12423eae9f5f4122b0e094ce6fd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 37/41] fix: operation points of a report keep the settings
 they were added with

---
 src/emva1288/report/report.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 70c83c7..a914180 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -385,6 +385,8 @@ class Report1288(object):
         n = len(self.ops) + 1
         # copy, the same dict can be used to add more operation points
         op = dict(op)
+        for k in ('camera_settings', 'test_parameters'):
+            op[k] = OrderedDict(op.get(k) or {})
         op['id'] = 'OP%d' % (n)
         if not op['name']:
             op['name'] = op['id']
-- 
2.43.0


From ac05102a1009dd2659f8c7ef1fe4d0fa0982b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 38/41] fix: reports keep the setup information they were
 created with

---
 src/emva1288/report/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index a914180..14848a2 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -205,7 +205,7 @@ class Report1288(object):
         # copies, because the file names get replaced
         self.marketing = dict(marketing or info_marketing())
         self.basic = dict(basic or info_basic())
-        self.setup = setup or info_setup()
+        self.setup = OrderedDict(setup or info_setup())
         self.cover_page = cover_page or self.marketing.get('cover_page')
         self._make_dirs(outdir)
 
-- 
2.43.0


From 8c7433dde151b9ef0bcc91fd716fa2b7c8830390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 39/41] fix: the descriptor path of a generated data set is
 absolute

---
 src/emva1288/camera/dataset_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/camera/dataset_generator.py b/src/emva1288/camera/dataset_generator.py
index d1143be..649a0cf 100644
--- a/src/emva1288/camera/dataset_generator.py
+++ b/src/emva1288/camera/dataset_generator.py
@@ -131,7 +131,7 @@ class DatasetGenerator:
         os.makedirs(os.path.join(self.outdir, 'images'))
 
         # run test
-        self._descriptor_path = self.run_test()
+        self._descriptor_path = os.path.abspath(self.run_test())
 
     @property
     def points(self):
-- 
2.43.0


From 5c201a535885d1023b698ae40067043a69387d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 40/41] fix: exposure series are planned with the requested
 gain and black offset

---
 src/emva1288/camera/points_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/camera/points_generator.py b/src/emva1288/camera/points_generator.py
index d57518e..b7876f1 100644
--- a/src/emva1288/camera/points_generator.py
+++ b/src/emva1288/camera/points_generator.py
@@ -64,6 +64,8 @@ class PointsGenerator:
         self._blackref = blackref
         if blackref is None:
             self._blackref = self._cam.blackoffset
+        self._cam.K = self._gain
+        self._cam.blackoffset = self._blackref
         if self._exposure is None:
             # Get radiance for saturation at maximal exposure time
             # Only if it is for an exposure time variation test
@@ -73,8 +75,6 @@ class PointsGenerator:
         else:
             # get radiances for radiation variation
             self._cam.exposure = self._exposure
-            self._cam.K = self._gain
-            self._cam.blackoffset = self._blackref
             m = self._cam.grab(0).mean()
             target = (self._cam.img_max - m) / self._steps + m
             if self._radiance_min is None:
-- 
2.43.0


From 3aaace99839d0cc411f6bb7a4ec67bd375529013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:40 +0000
Subject: [PATCH 41/41] fix: lines without valid pixels do not count in the
 spatial variances of masked images

---
 src/emva1288/process/data.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/process/data.py b/src/emva1288/process/data.py
index b9c570a..81aed1e 100644
--- a/src/emva1288/process/data.py
+++ b/src/emva1288/process/data.py
@@ -283,8 +283,8 @@ class Data1288(object):
         are:
                - *'sum'*: the sum image preserved from input,
                - *'L'*: the number of image summed,
-               - *'M'*: the number of rows for one image
-               - *'N'*: the number of columns for one image
+               - *'M'*: the number of rows (with valid pixels) for one image
+               - *'N'*: the number of columns (with valid pixels) for one image
                - *'avg_var'*: variance of the the average image
                - *'avg_mean'*: mean of the the average image
                - *'var_mean'*: the variance of the variance image
@@ -297,8 +297,10 @@ class Data1288(object):
         pvar_ = d['pvar'].astype(np.int64)
 
         L = d['L']
-        M = self.rows
-        N = self.cols
+        # lines without any valid pixel (masked images) are no lines
+        valid = ~np.ma.getmaskarray(sum_)
+        M = np.count_nonzero(valid.any(axis=1))
+        N = np.count_nonzero(valid.any(axis=0))
 
         # Eqn(38)
         avg_ = sum_ / (1.0 * L)          # <y>
-- 
2.43.0

