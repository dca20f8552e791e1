From a7ec71f2fe00239376b11f47ff2173a2a48be48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 01/51] fix: benchmark_par_to_canonical no longer adds IRzz and
 IFzz to the caller's dictionary

---
 bicycleparameters/bicycle.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 55f516a..ca76317 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -112,9 +112,10 @@ def benchmark_par_to_canonical(p):
             p['mF']*p['rF']**2)
     ITxz = (p['IBxz'] + p['IHxz'] - p['mB']*p['xB']*p['zB'] -
             p['mH']*p['xH']*p['zH'] + p['mF']*p['w']*p['rF'])
-    p['IRzz'] = p['IRxx']
-    p['IFzz'] = p['IFxx']
-    ITzz = (p['IRzz'] + p['IBzz'] + p['IHzz'] + p['IFzz'] +
+    # the wheels are symmetric about their spin axes
+    IRzz = p['IRxx']
+    IFzz = p['IFxx']
+    ITzz = (IRzz + p['IBzz'] + p['IHzz'] + IFzz +
             p['mB']*p['xB']**2 + p['mH']*p['xH']**2 + p['mF']*p['w']**2)
 
     mA = p['mH'] + p['mF']
@@ -125,7 +126,7 @@ def benchmark_par_to_canonical(p):
             p['mF']*(p['rF'] + zA)**2)
     IAxz = (p['IHxz'] - p['mH']*(p['xH'] - xA)*(p['zH'] - zA) + p['mF'] *
             (p['w'] - xA)*(p['rF'] + zA))
-    IAzz = (p['IHzz'] + p['IFzz'] + p['mH']*(p['xH'] - xA)**2 + p['mF'] *
+    IAzz = (p['IHzz'] + IFzz + p['mH']*(p['xH'] - xA)**2 + p['mF'] *
             (p['w'] - xA)**2)
     uA = (xA - p['w'] - p['c'])*umath.cos(p['lam']) - zA*umath.sin(p['lam'])
     IAll = (mA*uA**2 + IAxx*umath.sin(p['lam'])**2 +
-- 
2.43.0


From 74e61688d5e68474046b96587ca26d0be056c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 02/51] fix: Bicycle.eig accepts any scalar speed, not only
 Python floats

---
 bicycleparameters/main.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 9e6f175..d291465 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1178,10 +1178,7 @@ class Bicycle(object):
         model.
 
         '''
-        if isinstance(speeds, float):
-            speeds = np.array([speeds])
-        else:
-            speeds = np.asarray(speeds)
+        speeds = np.atleast_1d(speeds)
 
         par = io.remove_uncertainties(self.parameters['Benchmark'])
 
-- 
2.43.0


From ddaedcaac90e0ab667f18b58323d7e18eaf03375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 03/51] fix: calc_eigen drops rounding residues that made the
 rider lean eigenvectors wrong

---
 bicycleparameters/models.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index fa104f3..8dc5640 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -126,6 +126,13 @@ class _Model(abc.ABC):
         """
         A, B = self.form_state_space_matrices(**parameter_overrides)
 
+        # NOTE : entries of the state matrix that should be zero can be
+        # rounding residues (e.g. 1e-33), which the balancing in eig() scales
+        # up such that the eigenvectors become meaningless.
+        tol = np.finfo(float).eps*np.max(np.abs(A), axis=(-2, -1),
+                                         keepdims=True)
+        A = np.where(np.abs(A) < tol, 0.0, A)
+
         if len(A.shape) == 3:  # array version
             evals = np.zeros(A.shape[:2], dtype='complex128')
             evecs = np.zeros(A.shape, dtype='complex128')
-- 
2.43.0


From 1cd2d31738536cb118e310d44fed8e4310531159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 04/51] fix: rider lean simulate() rejects parameter arrays and
 keeps the caller's initial condition

---
 bicycleparameters/models.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 8dc5640..004b0a7 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1464,8 +1464,10 @@ class MooreRiderLean2012Model(_Model):
         par, array_keys, array_len = self._parse_parameter_overrides(
             **parameter_overrides)
 
-        # u6 has to be consistent with v
-        initial_conditions[9] = -par['v']/par['rr']
+        if not array_keys:
+            # u6 has to be consistent with v
+            initial_conditions = np.array(initial_conditions, dtype=float)
+            initial_conditions[9] = -par['v']/par['rr']
 
         return super().simulate(times, initial_conditions,
                                 input_func=input_func, **parameter_overrides)
@@ -1516,12 +1518,6 @@ class MooreRiderLean2012Model(_Model):
            m.plot_simulation(times, x0, v=20.0)
 
         """
-        par, array_keys, array_len = self._parse_parameter_overrides(
-            **parameter_overrides)
-
-        # u6 has to be consistent with v
-        initial_conditions[9] = -par['v']/par['rr']
-
         res, inputs = self.simulate(times, initial_conditions,
                                     input_func=input_func,
                                     **parameter_overrides)
-- 
2.43.0


From 1b44b0535bbcbf9c0ed1b103369dee5abb0e9811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 05/51] fix: mode sorting never assigns one eigenvalue to two
 modes

---
 bicycleparameters/bicycle.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index ca76317..e4cdd0d 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -247,11 +247,8 @@ def sort_eigenmodes(evals, evecs):
                 xn, yn = np.real(eignext), np.imag(eignext)
                 # distance between points in the real/imag plane
                 dist[k] = np.abs(((xn - x)**2 + (yn - y)**2)**0.5)
-            if np.argmin(dist) in used:
-                # set the already used indice higher
-                dist[np.argmin(dist)] = np.max(dist) + 1.
-            else:
-                pass
+            # never pick an already used indice again
+            dist[used] = np.inf
             evalsorg[i + 1, j] = evals[i + 1, np.argmin(dist)]
             evecsorg[i + 1, :, j] = evecs[i + 1, :, np.argmin(dist)]
             # keep track of the indices we've used
@@ -320,11 +317,8 @@ def sort_modes(evals, evecs):
                     xn, yn = np.real(eignext), np.imag(eignext)
                 # distance between points in the real/imag plane
                 dist[k] = np.abs(((xn - x)**2 + (yn - y)**2)**0.5)
-            if np.argmin(dist) in used:
-                # set the already used indice higher
-                dist[np.argmin(dist)] = np.max(dist) + 1.
-            else:
-                pass
+            # never pick an already used indice again
+            dist[used] = np.inf
             evalsorg[i + 1, j] = evals[i + 1, np.argmin(dist)]
             evecsorg[i + 1, :, j] = evecs[i + 1, :, np.argmin(dist)]
             # keep track of the indices we've used
-- 
2.43.0


From a86b717d728563fc1eb72767dad6b27fdb6fde44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 06/51] fix: load_parameter_text_file ignores blank lines and
 indented comments

---
 bicycleparameters/io.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index dcb3b80..9967412 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -56,11 +56,13 @@ def load_parameter_text_file(pathToFile):
     # parse the text file
     with open(pathToFile, 'r') as f:
         for line in f:
-            # ignore lines that start with a hash
-            if line[0] != '#':
-                # remove any whitespace characters and comments at the end of
-                # the line, then split the right and left side of the equality
-                equality = line.strip().split('#')[0].split('=')
+            # remove any whitespace characters and comments at the end of the
+            # line
+            content = line.split('#')[0].strip()
+            # ignore blank lines and lines that only contain a comment
+            if content:
+                # split the right and left side of the equality
+                equality = content.split('=')
                 # ['a ', ' 0.1 +/- 0.05 , 0.09 +/- 0.05']
                 valList = equality[1].strip().split(',')
                 # ['0.1 +/- 0.05 ', ' 0.09 +/- 0.05']
-- 
2.43.0


From dab64ad2cd391a10def0b023e92b4ad90b166561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 07/51] fix: write_periods_to_file keeps an unterminated last
 line intact

---
 bicycleparameters/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 9967412..d9957f3 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -208,6 +208,9 @@ def write_periods_to_file(pathToRawFile, mp):
         if not line.startswith('T'):
             baseData += line
     f.close()
+    # the last line of the file may not be terminated
+    if baseData and not baseData.endswith('\n'):
+        baseData += '\n'
     # add the periods to the base data
     periodKeys = [x for x in mp.keys() if x.startswith('T')]
     periodKeys.sort()
-- 
2.43.0


From 8d991fef08d0358ac105cf0cb795ab518d769c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 08/51] fix: recalculating periods no longer erases stored
 periods that were not recomputed

---
 bicycleparameters/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index d291465..2142543 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -405,7 +405,9 @@ class Bicycle(object):
             # add the periods to the measured parameters
             self.parameters['Measured'].update(periods)
 
-            io.write_periods_to_file(pathToRawFile, periods)
+            # the file has to keep the stored periods that were not recomputed
+            io.write_periods_to_file(pathToRawFile,
+                                     self.parameters['Measured'])
 
         return calculate_benchmark_from_measured(self.parameters['Measured'])
 
-- 
2.43.0


From fb228118846fde19657860f962e2f9e3092af05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 09/51] fix: save_parameters names every parameter file after
 its own set only

---
 bicycleparameters/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 2142543..9d1eb31 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -203,11 +203,11 @@ class Bicycle(object):
 
         if filetype == 'text':
             for pset in psets:
-                fileName = fileName + pset + '.txt'
-                pathToTxtFile = os.path.join(pathToParDir, fileName)
+                psetFileName = fileName + pset + '.txt'
+                pathToTxtFile = os.path.join(pathToParDir, psetFileName)
                 io.write_parameter_text_file(pathToTxtFile, parameters[pset])
                 if self.hasRider:
-                    pathToCombFile = os.path.join(pathToCombDir, fileName)
+                    pathToCombFile = os.path.join(pathToCombDir, psetFileName)
                     io.write_parameter_text_file(pathToCombFile,
                                                  self.parameters[pset])
 
-- 
2.43.0


From c7cbc53b4095a9dc6a5055373531d6f4d172b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 10/51] fix: a measured file lacking one torsional period
 triggers the period calculation

---
 bicycleparameters/period.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index f37fddc..e112893 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -163,12 +163,14 @@ def check_for_period(mp, forkIsSplit):
         elif key[:2] == 'Tt':
             ntTSum += 1
 
-    # if there isn't enough data then force the period cals again
+    # if there isn't enough data then force the period cals again, the
+    # torsional periods are those of the rod, both wheels and at least three
+    # orientations of every other part
     if forkIsSplit:
-        if ncTSum < 5 or ntTSum < 11:
+        if ncTSum < 5 or ntTSum < 12:
             forcePeriodCalc = True
     else:
-        if ncTSum < 4 or ntTSum < 8:
+        if ncTSum < 4 or ntTSum < 9:
             forcePeriodCalc = True
 
     return forcePeriodCalc
-- 
2.43.0


From 7c8fc2413bd50f92e6461083a18e97b1b389f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 11/51] fix: part_inertia_tensor accepts uncertainties in any
 inertia component

---
 bicycleparameters/inertia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index d172c09..b01b2b1 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -172,7 +172,7 @@ def part_inertia_tensor(par, part):
     documentation.
 
     '''
-    if isinstance(par['IBxx'], UFloat):
+    if any(isinstance(v, UFloat) for k, v in par.items() if k.startswith('I')):
         dtype = object
     else:
         dtype = 'float64'
-- 
2.43.0


From 12aa0e20eac26a8dbae8b5edb8bddf1728865ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 12/51] fix: fit_goodness sums the squared residuals so clean
 fits get no nan uncertainty

---
 bicycleparameters/period.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index e112893..fcb7d6c 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -201,7 +201,7 @@ def fit_goodness(ym, yp):
     '''
     SSR = np.sum((yp - np.mean(ym))**2)
     SST = np.sum((ym - np.mean(ym))**2)
-    SSE = SST - SSR
+    SSE = np.sum((ym - yp)**2)
     rsq = SSR / SST
     return rsq, SSE, SST, SSR
 
-- 
2.43.0


From 3168910d3918eb0e0d5966d999392d285a1c06c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 13/51] fix: period estimation accepts non-integer sample rates
 and time lists

---
 bicycleparameters/period.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index fcb7d6c..a1fef76 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -214,7 +214,7 @@ def get_period(data, sample_rate_or_time, pathToPlotFile):
     ----------
     data : array_like, shape(n,)
         A time series that resembles a decaying oscillation.
-    sample_rate_or_time : int or array_like, shape(n,)
+    sample_rate_or_time : float or array_like, shape(n,)
         Either the frequency in Hertz that data was sampled at or a time array
         that corresponds to ``data``.
     pathToPlotFile : string
@@ -228,11 +228,11 @@ def get_period(data, sample_rate_or_time, pathToPlotFile):
     '''
 
     y = data
-    if isinstance(sample_rate_or_time, int):
+    if np.ndim(sample_rate_or_time) == 0:
         sample_rate = sample_rate_or_time
         x = np.linspace(0.0, (len(y) - 1)/float(sample_rate), num=len(y))
     else:
-        x = sample_rate_or_time
+        x = np.asarray(sample_rate_or_time)
         sample_rate = int(1.0/np.mean(np.diff(x)))  # approximate
 
     def fitfunc(p, t):
@@ -301,7 +301,7 @@ def get_period_from_truncated(data, sampleRate, pathToPlotFile):
     # Balanceassistv1 fork. This is a bit of a hack. It would be better to have
     # optional data processing steps per trials to maximize good period
     # estimates. This is trying to be a catch all as designed.
-    if isinstance(sampleRate, np.ndarray):  # time array
+    if np.ndim(sampleRate) > 0:  # time array
         dataGood = dataRec
     else:
         dataGood = select_good_data(dataRec, 0.1)
-- 
2.43.0


From 989facbf2595fdfc18f507e434c33ca224b7b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 14/51] fix: combine_bike_rider measures the frame's lateral
 offset from the common mass centre

---
 bicycleparameters/inertia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index b01b2b1..ef8de21 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -46,7 +46,7 @@ def combine_bike_rider(bicyclePar, riderPar):
                        riderPar['yB'] - cT[1],
                        riderPar['zB'] - cT[2]])
     dBicycle = np.array([bicyclePar['xB'] - cT[0],
-                         0.,
+                         0. - cT[1],
                          bicyclePar['zB'] - cT[2]])
     # calculate the total inertia about the total body center of mass
     I = (parallel_axis(IRider, riderPar['mB'], dRider) +
-- 
2.43.0


From 4d9deab253b1055fc45317af94f8f49b84b3e78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 15/51] fix: ten or more orientations of one part are taken in
 numerical order

---
 bicycleparameters/com.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/com.py b/bicycleparameters/com.py
index 6eba9f4..070e6c2 100644
--- a/bicycleparameters/com.py
+++ b/bicycleparameters/com.py
@@ -195,9 +195,9 @@ def part_com_lines(mp, par, forkIsSplit):
         intercepts = {'B': [], 'H': []}
         betas = {'B': [], 'H': []}
 
-    # get the alpha keys and put them in order
+    # get the alpha keys and put them in order, e.g. alphaB2 before alphaB10
     listOfAlphaKeys = [x for x in mp.keys() if x.startswith('alpha')]
-    listOfAlphaKeys.sort()
+    listOfAlphaKeys.sort(key=lambda x: (x[5], int(x[6:])))
 
     # caluclate m, b and beta for each orientation
     for key in listOfAlphaKeys:
-- 
2.43.0


From a033fc82a7c55af804fc21fbdd428d1e7bdb8e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 16/51] fix: lambda_from_abc accepts plain floats

---
 bicycleparameters/bicycle.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index e4cdd0d..0c5a3a2 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -2,7 +2,7 @@
 
 import numpy as np
 from scipy.optimize import newton
-from uncertainties import umath, ufloat
+from uncertainties import UFloat, nominal_value, ufloat, umath
 
 
 def ab_matrix(M, C1, K0, K2, v, g):
@@ -203,11 +203,13 @@ def lambda_from_abc(rF, rR, a, b, c):
     # that needs to be figured out. I guess I could use least squares and do it
     # the same way as get_period.
 
-    args = (rF.nominal_value, rR.nominal_value, a.nominal_value,
-            b.nominal_value, c.nominal_value)
+    args = tuple(nominal_value(x) for x in (rF, rR, a, b, c))
 
-    lam = newton(lam_equality, guess.nominal_value, args=args)
-    return ufloat(lam, guess.std_dev)
+    lam = newton(lam_equality, nominal_value(guess), args=args)
+    if isinstance(guess, UFloat):
+        return ufloat(lam, guess.std_dev)
+    else:
+        return lam
 
 
 def sort_eigenmodes(evals, evecs):
-- 
2.43.0


From 10c5c045536ed86632273f21635e63995a591d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 17/51] fix: fwheel_to_handlebar_ref works for a vertical steer
 axis

---
 bicycleparameters/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 2846326..660ec58 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -178,7 +178,7 @@ def fwheel_to_handlebar_ref(lam, l1, l2):
     '''
 
     u1 = l2 * umath.sin(lam) - l1 * umath.cos(lam)
-    u2 = u1 / umath.tan(lam) + l1 / umath.sin(lam)
+    u2 = l2 * umath.cos(lam) + l1 * umath.sin(lam)
     return u1, u2
 
 
-- 
2.43.0


From 94d6f0734363aac571aa26f7a2430fa9f71b863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 18/51] fix: calc_two_link_angles handles a second link that
 points backwards

---
 bicycleparameters/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 660ec58..7b4844d 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -154,7 +154,8 @@ def calc_two_link_angles(L1, L2, D):
     '''
 
     theta1 = np.arccos((L1**2 + D**2 - L2**2) / (2.0 * L1 * D))
-    theta2 = theta1 + np.arcsin(L1 / L2 * np.sin(theta1))
+    theta2 = theta1 + np.arctan2(L1 * np.sin(theta1),
+                                 D - L1 * np.cos(theta1))
 
     return theta1, theta2
 
-- 
2.43.0


From 593b10e276196bcc1ba07b28e348f9a65ed88215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 19/51] fix: vec_angle accepts column vectors and parallel
 vectors

---
 bicycleparameters/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 7b4844d..faa140e 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -316,8 +316,8 @@ def vec_angle(v1, v2):
     angle : float
         (radians) interior angle between v1 and v2.
     '''
-    return np.arccos(float(np.dot(v1.T, v2)) / (np.linalg.norm(v1) *
-                                                np.linalg.norm(v2)))
+    cos_angle = np.vdot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2))
+    return float(np.arccos(np.clip(cos_angle, -1.0, 1.0)))
 
 
 def vec_project(vec, direction):
-- 
2.43.0


From 71e4cc801dda1dd19876d6959ef6f583e9eef620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 20/51] fix: vec_project projects into the plane normal to the
 direction

---
 bicycleparameters/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index faa140e..dceab1e 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -341,10 +341,10 @@ def vec_project(vec, direction):
 
     '''
     vec = vec.flatten()
-    if type(direction) == int:
+    if np.ndim(direction) == 0:
         unitdir = np.zeros(3)
         unitdir[direction] = 1
-    elif type(direction) == np.array:
+    else:
         unitdir = direction / np.linalg.norm(direction)
-    proj = vec - np.dot(vec, unitdir)
+    proj = vec - np.dot(vec, unitdir) * unitdir
     return proj.reshape((3, 1))
-- 
2.43.0


From c6aef6cac1e0a39b94e383bb20c8db96ad07e75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 21/51] fix: principal_axes returns orthogonal axes for
 repeated principal moments

---
 bicycleparameters/inertia.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index ef8de21..c118ca1 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -210,7 +210,9 @@ def principal_axes(I):
         The rotation matrix.
 
     '''
-    Ip, C = np.linalg.eig(I)
+    # the tensor is symmetric; eigh returns orthogonal axes also for repeated
+    # principal moments
+    Ip, C = np.linalg.eigh(I)
     indices = np.argsort(Ip)
     Ip = Ip[indices]
     C = C.T[indices]
-- 
2.43.0


From e3f3795285deddc725dcb4195ca7b3ea7a3b8dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 22/51] fix: Moore2019 sets holding only the required
 parameters convert to Meijaard2007

---
 bicycleparameters/parameter_sets.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 7f2d7f9..e6bb2e8 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1134,7 +1134,10 @@ class Moore2019ParameterSet(ParameterSet):
         if name == self.parameterization:
             return self
         elif name == 'Meijaard2007':
-            b = _convert_principal_to_benchmark(self.parameters)
+            # constants that are not specified by the user, e.g. yD
+            par = self._calc_derived_params()
+            par.update(self.parameters)
+            b = _convert_principal_to_benchmark(par)
             # Moore2019 always includes the rider
             return Meijaard2007ParameterSet(b, True)
         elif name == 'Meijaard2007WithFeedback':
-- 
2.43.0


From 2bcb0d4a62feccbe7180633461bb4a03bc06be66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 23/51] fix: Moore2019 sets convert to Meijaard2007WithFeedback

---
 bicycleparameters/parameter_sets.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index e6bb2e8..e95d2ac 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1141,9 +1141,7 @@ class Moore2019ParameterSet(ParameterSet):
             # Moore2019 always includes the rider
             return Meijaard2007ParameterSet(b, True)
         elif name == 'Meijaard2007WithFeedback':
-            b = _convert_principal_to_benchmark(self.parameters)
-            # Moore2019 always includes the rider
-            par_set = Meijaard2007WithFeedbackParameterSet(b, True)
+            par_set = self.to_parameterization('Meijaard2007')
             return par_set.to_parameterization(name)
         else:
             msg = '{} is not an available parameter set'
-- 
2.43.0


From 9c19778237e4fd9117c2225a0da954d0eb5751aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 24/51] fix: to_yaml writes plain floats and whether the rider
 is included

---
 bicycleparameters/parameter_sets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index e95d2ac..a9f1721 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -185,8 +185,8 @@ class ParameterSet(ABC):
             'description': '',
             'parameterization': self.parameterization,
             'parameters': '',
-            'rider': None,
-            'values': self.parameters,
+            'rider': getattr(self, 'includes_rider', None),
+            'values': {k: float(v) for k, v in self.parameters.items()},
         }
         with open(fname, 'w') as f:
             yaml.dump(data, f)
-- 
2.43.0


From 2cafccec1e1a9b34ed709370f25440fa3f8663e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 25/51] fix: to_ini writes every digit of the parameter values

---
 bicycleparameters/parameter_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index a9f1721..cc47560 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -203,7 +203,7 @@ class ParameterSet(ABC):
         """
         text = ""
         for k, v in self.parameters.items():
-            text += "{}={:1.16f}\n".format(k, v)
+            text += "{}={!r}\n".format(k, float(v))
         with open(fname, 'w') as f:
             f.write(text)
 
-- 
2.43.0


From 24f122b02806302ddcd18046e89e90e328c19e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 26/51] fix: Moore2012 parameter sets load from YAML files

---
 bicycleparameters/parameter_sets.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index cc47560..c498e8d 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1709,6 +1709,14 @@ class Moore2012ParameterSet(ParameterSet):
         self.includes_rider = includes_rider
         self._generate_body_colors()
 
+    @classmethod
+    def _from_yaml(cls, path_to_file):
+
+        with open(os.path.join(path_to_file), 'r') as f:
+            yaml_data = yaml.load(f, Loader=yaml.FullLoader)
+
+        return cls(yaml_data['values'], yaml_data['rider'])
+
 
 class MooreRiderLean2012ParameterSet(ParameterSet):
     """Represents the parameters of the Carvallo-Whipple model with a leaning
-- 
2.43.0


From 6033382ec80005243d584df977586d557ea24ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 27/51] fix: uround handles zero and large uncertainties and
 keeps the uncertainty of zero values

---
 bicycleparameters/tables.py | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index aa0c4d6..f31c9f5 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -1,4 +1,4 @@
-from math import ceil
+from math import ceil, floor, log10
 
 
 class Table():
@@ -222,8 +222,6 @@ def uround(value):
 
     2.4564+/-0.0004
 
-    This probably doesn't work for weird cases like large uncertainties.
-
     '''
     try:
     # grab the nominal value and the uncertainty
@@ -232,25 +230,12 @@ def uround(value):
         s = str(value)
     else:
         uncert = value.std_dev
-        if abs(nom) < 1e-15:
-            s = '0.0+/-0.0'
+        if uncert == 0.0:
+            s = '0.0+/-0.0' if abs(nom) < 1e-15 else str(nom) + '+/-0.0'
         else:
-            # convert the uncertainty to a string
-            s = '%.14f' % uncert
-            # find the first non-zero character
-            for j, number in enumerate(s):
-                if number == '0' or number == '.':
-                    pass
-                else:
-                    digit = j
-                    break
-            newUncert = round(uncert, digit - 1)
-            newUncertStr = ('%.' + str(digit - 1) + 'f') % newUncert
-            newNom = round(nom, len(newUncertStr) - 2)
-            newNomStr = ('%.' + str(digit - 1) + 'f') % newNom
-            diff = len(newUncertStr) - len(newNomStr)
-            if diff > 0:
-                s = newNomStr + int(diff) * '0' + '+/-' + newUncertStr
-            else:
-                s = newNomStr + '+/-' + newUncertStr
+            # decimal place of the first non-zero digit of the uncertainty,
+            # negative if it is left of the decimal point
+            place = -int(floor(log10(uncert)))
+            form = '%.' + str(max(place, 0)) + 'f'
+            s = form % round(nom, place) + '+/-' + form % round(uncert, place)
     return s
-- 
2.43.0


From b4c69d01be37296751137509b0a5f3105025c531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 28/51] fix: create_rst_table leaves the table data unchanged

---
 bicycleparameters/tables.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index f31c9f5..79721bd 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -81,12 +81,13 @@ class Table():
 
         """
 
-        table = self.tableData
+        # copy the rows so that the table can be created again
+        table = [list(row) for row in self.tableData]
 
         # add the math directive if using latex
         if self.latex:
-            for i, row in enumerate(table):
-                self.tableData[i][0] = ':math:`' + row[0] + '`'
+            for row in table:
+                row[0] = ':math:`' + row[0] + '`'
 
         # add a sub header
         table.insert(0, ['Variable'])
-- 
2.43.0


From de38686c14e2272c717edffb230f1df9ea0ec6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 29/51] fix: to_latex accepts the speed and orientation numbers
 above nine

---
 bicycleparameters/tables.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index 79721bd..e9477f6 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -168,6 +168,7 @@ def to_latex(var):
                 'w': 'w',
                 'gamma': r'\gamma',
                 'g': 'g',
+                'v': 'v',
                 'lcs': 'l_{cs}',
                 'hbb': 'h_{bb}',
                 'lsp': 'l_{sp}',
@@ -188,11 +189,11 @@ def to_latex(var):
         latex = latexMap[var]
     except KeyError:
         if var.startswith('alpha'):
-            latex = r'\alpha_{' + var[-2:] + '}'
-        elif var.startswith('a') and len(var) == 3:
-            latex = 'a_{' + var[-2:] + '}'
+            latex = r'\alpha_{' + var[5:] + '}'
+        elif var.startswith('a') and len(var) >= 3:
+            latex = 'a_{' + var[1:] + '}'
         elif var.startswith('T'):
-            latex = 'T^' + var[1] + '_{' + var[-2:] + '}'
+            latex = 'T^' + var[1] + '_{' + var[2:] + '}'
         elif len(var) == 2:
             latex = var[0] + '_' + var[1]
         elif var.startswith('I'):
-- 
2.43.0


From f38a74248c33988d72132ecaf251c86de49e50eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 30/51] fix: eigenvector plots draw whole eigenvectors, one row
 per sample

plot_eigenvectors() iterated over the transposed stack of eigenvector
matrices, so the drawn components were not those of one eigenvector (for
several samples they mixed samples or raised IndexError), and a single
remaining mode collapsed the documented axes array.
---
 bicycleparameters/models.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 004b0a7..c49427d 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -301,7 +301,8 @@ class _Model(abc.ABC):
             **parameter_overrides)
 
         eval_seq, evec_seq = self.calc_eigen(**parameter_overrides)
-        eval_seq, evec_seq = np.atleast_2d(eval_seq), np.atleast_3d(evec_seq)
+        if eval_seq.ndim == 1:
+            eval_seq, evec_seq = eval_seq[np.newaxis], evec_seq[np.newaxis]
 
         # TODO : This assumes that the eigenvalues are in the same order.
         plot = np.ones(len(eval_seq[-1]), dtype=int)
@@ -327,10 +328,9 @@ class _Model(abc.ABC):
             # eval_seq, evec_seq = sort_eigenmodes(eval_seq, evec_seq)
 
         fig, axes = plt.subplots(eval_seq.shape[0],
-                                 np.count_nonzero(plot),
+                                 np.count_nonzero(plot), squeeze=False,
                                  subplot_kw={'projection': 'polar'},
                                  layout='constrained')
-        axes = np.atleast_2d(axes)
         fig.set_size_inches(axes.shape[1]*3, axes.shape[0]*3)
         lw = list(range(1, len(self.state_vars) + 1))
         lw.reverse()
@@ -340,7 +340,7 @@ class _Model(abc.ABC):
         else:
             par_vals = [0.0]
 
-        for k, (evals, evecs, par_val) in enumerate(zip(eval_seq, evec_seq.T,
+        for k, (evals, evecs, par_val) in enumerate(zip(eval_seq, evec_seq,
                                                         par_vals)):
 
             if arr_keys:
@@ -349,7 +349,7 @@ class _Model(abc.ABC):
                                       labelpad=30)
 
             i = 0
-            for eigenval, eigenvec, pl in zip(evals, evecs, plot):
+            for eigenval, eigenvec, pl in zip(evals, evecs.T, plot):
 
                 if pl:
                     max_com = np.abs(eigenvec).max()
-- 
2.43.0


From a622c506f8fa668ee5c0d5a885154bc30db898d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 31/51] fix: compare_bode_speeds() and compare_bode_bicycles()
 work again

They handed dtk.control.bode() an empty figure and read a figure attribute
that no longer exists.
---
 bicycleparameters/main.py | 4 ++--
 bicycleparameters/plot.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 9d1eb31..8e553c6 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1514,13 +1514,13 @@ class Bicycle(object):
         """
 
         if fig is None:
-            fig = plt.figure()
+            fig, _ = plt.subplots(2, 1, sharex=True)
 
         for speed in speeds:
             self.plot_bode(speed, u, y, label=str(speed) + ' m/s', fig=fig)
 
         # take care of phase misalignment
-        phaseLines = fig.ax2.lines
+        phaseLines = fig.axes[1].lines
         for line in phaseLines:
             firstValue = line.get_ydata()[0]
             n = np.ceil(np.floor(abs(firstValue / 180.)) / 2.)
diff --git a/bicycleparameters/plot.py b/bicycleparameters/plot.py
index 2fa25cf..30e5c87 100644
--- a/bicycleparameters/plot.py
+++ b/bicycleparameters/plot.py
@@ -33,13 +33,13 @@ def compare_bode_bicycles(bikes, speed, u, y, fig=None):
     """
 
     if fig is None:
-        fig = plt.figure()
+        fig, _ = plt.subplots(2, 1, sharex=True)
 
     for bike in bikes:
         bike.plot_bode(speed, u, y, label=bike.bicycleName, fig=fig)
 
     # take care of phase misalignment
-    phaseLines = fig.ax2.lines
+    phaseLines = fig.axes[1].lines
     for line in phaseLines:
         firstValue = line.get_ydata()[0]
         n = np.ceil(np.floor(abs(firstValue / 180.)) / 2.)
-- 
2.43.0


From c0e6103d7f7bfc72fc596802e1cdabb00bfe49e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:15 +0000
Subject: [PATCH 32/51] fix: plotly eigenvalue figure handles given figures,
 largest and all stable regions

With a given figure the eigenvalues were never computed, largest=True failed,
and the stability region was one interval spanned by the first and last
stable speeds of the single modes (wrong when modes are stable on several
intervals) or an UnboundLocalError when a mode was never stable.
---
 bicycleparameters/main.py | 133 ++++++++++++++++++--------------------
 1 file changed, 63 insertions(+), 70 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 8e553c6..76e4e95 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1344,11 +1344,14 @@ class Bicycle(object):
         speeds = np.sort(speeds)
         if fig is None:
             fig = go.Figure(layout_yaxis_range=[-10, 10])
-            evals, evecs = self.eig(speeds)
+
+        evals, evecs = self.eig(speeds)
 
         if largest:
-            fig.add_trace(go.Scatter(x=speeds, y=np.max(evals)))
-            fig.show()
+            fig.add_trace(go.Scatter(x=speeds,
+                                     y=np.max(np.real(evals), axis=1),
+                                     mode='lines',
+                                     name='Max Eigenvalue'))
         else:
             w, cap, cas = bicycle.sort_modes(evals, evecs)
             colors_eig = px.colors.qualitative.Pastel
@@ -1356,78 +1359,68 @@ class Bicycle(object):
             weaveColor2 = colors_eig[1]
             capsizeColor = colors_eig[2]
             casterColor = colors_eig[5]
-        wea1 = w['evals'][:, 0]
-        wea2 = w['evals'][:, 1]
-        fig.add_trace(go.Scatter(x=speeds, y=np.real(wea1),
-                                 mode='lines',
-                                 name='Re Weave',
-                                 line=dict(color=weaveColor1),
-                                 text='Re'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.real(wea2),
-                                 mode='lines',
-                                 name='Re Weave',
-                                 line=dict(color=weaveColor2),
-                                 text='Re'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.real(cap['evals']),
-                                 mode='lines',
-                                 name='Re Capsize',
-                                 line=dict(color=capsizeColor),
-                                 text='Re'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.real(cas['evals']),
-                                 mode='lines',
-                                 name='Re Castering',
-                                 line=dict(color=casterColor),
-                                 text='Re'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(wea1)),
-                                 mode='lines',
-                                 name='Im Weave',
-                                 line=dict(color=weaveColor1, dash='dash'),
-                                 text='Im'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(wea2)),
-                                 mode='lines',
-                                 name='Im Weave',
-                                 line=dict(color=weaveColor2, dash='dash'),
-                                 text='Im'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(cap['evals'])),
-                                 mode='lines',
-                                 name='Im Capsize',
-                                 line=dict(color=capsizeColor, dash='dash'),
-                                 text='Im'))
-        fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(cas['evals'])),
-                                 mode='lines',
-                                 name='Im Castering',
-                                 line=dict(color=casterColor, dash='dash'),
-                                 text='Im'))
+            wea1 = w['evals'][:, 0]
+            wea2 = w['evals'][:, 1]
+            fig.add_trace(go.Scatter(x=speeds, y=np.real(wea1),
+                                     mode='lines',
+                                     name='Re Weave',
+                                     line=dict(color=weaveColor1),
+                                     text='Re'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.real(wea2),
+                                     mode='lines',
+                                     name='Re Weave',
+                                     line=dict(color=weaveColor2),
+                                     text='Re'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.real(cap['evals']),
+                                     mode='lines',
+                                     name='Re Capsize',
+                                     line=dict(color=capsizeColor),
+                                     text='Re'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.real(cas['evals']),
+                                     mode='lines',
+                                     name='Re Castering',
+                                     line=dict(color=casterColor),
+                                     text='Re'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(wea1)),
+                                     mode='lines',
+                                     name='Im Weave',
+                                     line=dict(color=weaveColor1, dash='dash'),
+                                     text='Im'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(wea2)),
+                                     mode='lines',
+                                     name='Im Weave',
+                                     line=dict(color=weaveColor2, dash='dash'),
+                                     text='Im'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(cap['evals'])),
+                                     mode='lines',
+                                     name='Im Capsize',
+                                     line=dict(color=capsizeColor, dash='dash'),
+                                     text='Im'))
+            fig.add_trace(go.Scatter(x=speeds, y=np.abs(np.imag(cas['evals'])),
+                                     mode='lines',
+                                     name='Im Castering',
+                                     line=dict(color=casterColor, dash='dash'),
+                                     text='Im'))
         if stability_region:
-            try:
-                v_start_stab = max([min(speeds[np.real(wea2) < 0]),
-                                    min(speeds[np.real(cas['evals']) < 0]),
-                                    min(speeds[np.real(cap['evals']) < 0]),
-                                    min(speeds[np.real(wea1) < 0],
-                                        default="EMPTY")])
-                v_end_stab = min([max(speeds[np.real(wea2) < 0]),
-                                  max(speeds[np.real(cas['evals']) < 0]),
-                                  max(speeds[np.real(cap['evals']) < 0]),
-                                  max(speeds[np.real(wea1) < 0])])
-            except:  # TODO : Add explicit exception
-                fig.add_annotation(x=0.5*max(speeds), y=9,
-                                   text="No stability region",
-                                   showarrow=False)
-            if (v_start_stab > v_end_stab):
-                fig.add_annotation(x=0.5*max(speeds), y=9,
-                                   text="No stability region",
-                                   showarrow=False)
-            elif (v_end_stab - v_start_stab < 0.0001):
-                fig.add_annotation(x=0.5*max(speeds), y=9,
-                                   text="No stability region",
-                                   showarrow=False)
-            else:
-                fig.add_vrect(x0=v_start_stab, x1=v_end_stab,
+            # first and one past the last index of each run of stable speeds
+            stable = np.all(np.real(evals) < 0.0, axis=1)
+            edges = np.diff(np.hstack((False, stable, False)).astype(int))
+            regions = [(speeds[start], speeds[end - 1]) for start, end in
+                       zip(np.flatnonzero(edges > 0),
+                           np.flatnonzero(edges < 0))]
+            regions = [(v_start, v_end) for v_start, v_end in regions
+                       if v_end - v_start >= 0.0001]
+            for v_start, v_end in regions:
+                fig.add_vrect(x0=v_start, x1=v_end,
                               annotation_text="Self stability",
                               annotation_position='top left',
                               # fillcolor="blue", opacity=0.25,
                               fillcolor='rgba(71,147,231,0.5)',
-                              line_width=0, row=1, col=1)
+                              line_width=0)
+            if not regions:
+                fig.add_annotation(x=0.5*max(speeds), y=9,
+                                   text="No stability region",
+                                   showarrow=False)
 
         fig.update_layout(title=dict(text='Eigenvalues vs velocity',
                           font=dict(family="Segoe UI", size=25)),
-- 
2.43.0


From d8a0c81da20f5ab76f368eecbe9485b5e410fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 33/51] fix: stable regions are shaded over the full height of
 the axes

fill_between() was given eigenvalue magnitudes as y coordinates although the
transform measures y in fractions of the axes height.
---
 bicycleparameters/models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index c49427d..b0ee121 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -206,9 +206,8 @@ class _Model(abc.ABC):
             **parameter_overrides)
 
         if show_stable_regions:
-            ax.fill_between(par[array_keys[0]],
-                            np.min([np.min(evals.real), np.min(evals.imag)]),
-                            np.max([np.max(evals.real), np.max(evals.imag)]),
+            # the vertical coordinates are fractions of the axes height
+            ax.fill_between(par[array_keys[0]], 0.0, 1.0,
                             # NOTE : include zero here for A matrices that
                             # produce zero eigenvalues.
                             where=np.all(evals.real <= 0.0, axis=1),
-- 
2.43.0


From 5165e9eeaa2e26bb2e9820893b14230ab9adf119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 34/51] fix: mode simulation figures label angles in degrees
 and keep their axes array

Angles and rates are drawn in degrees but were labelled rad and rad/s, and a
single remaining mode or unit collapsed the axes array, which then failed.
---
 bicycleparameters/models.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index b0ee121..beaa270 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -526,6 +526,7 @@ class _Model(abc.ABC):
 
         fig, axes = plt.subplots(np.count_nonzero(plot),
                                  len(unique_units), sharex=True,
+                                 squeeze=False,
                                  figsize=(len(unique_units)*3.0,
                                           np.count_nonzero(plot)*2.0),
                                  layout='constrained')
@@ -547,14 +548,15 @@ class _Model(abc.ABC):
                 else:
                     fontcolor = 'black'
                 for j, unit in enumerate(unique_units):
-                    axes[i, j].set_ylabel('[{}]'.format(unit))
+                    axes[i, j].set_ylabel(
+                        '[{}]'.format(unit.replace('rad', 'deg')))
                     axes[i, j].set_title(msg.format(e_val),
                                          fontdict={'color': fontcolor})
                     axes[i, j].legend()
                 i += 1
 
-        axes[-1, 0].set_xlabel('Time [s]')
-        axes[-1, 1].set_xlabel('Time [s]')
+        for ax in axes[-1]:
+            ax.set_xlabel('Time [s]')
 
         return axes
 
-- 
2.43.0


From 3bbce387d6461e2c05835fefd54fcabb235335a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 35/51] fix: the rider lean model names the unit of all twelve
 states

The missing unit made plot_mode_simulations() drop the rider's lean rate.
---
 bicycleparameters/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index beaa270..31c884b 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1281,7 +1281,7 @@ class MooreRiderLean2012Model(_Model):
                   'u4', 'u6', 'u7', 'u9']
     input_units = ['N-m', 'N-m', 'N-m']
     state_units = ['m', 'm', 'rad', 'rad', 'rad', 'rad', 'rad', 'rad',
-                   'rad/s', 'rad/s', 'rad/s', ]
+                   'rad/s', 'rad/s', 'rad/s', 'rad/s']
     input_vars_latex = ['T_4', 'T_7', 'T_9']
     state_vars_latex = ['q_1', 'q_2', 'q_3', 'q_4', 'q_6', 'q_7', 'q_8', 'q_9',
                         'u_4', 'u_6', 'u_7', 'u_9']
-- 
2.43.0


From ece7501c53872a65359c795b3066edf44df2a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 36/51] fix: inertia ellipsoids of parameter sets are drawn at
 full size

The semi-axes of the solid ellipsoid were used as the full width and height
of the ellipse.
---
 bicycleparameters/parameter_sets.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index c498e8d..fa459c8 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -781,8 +781,9 @@ class Meijaard2007ParameterSet(ParameterSet):
 
         kaa, kbb, kyy, alpha = self._planar_principal_radii_of_gyration(body)
 
-        width = np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
-        height = np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
+        # twice the semi-axes of the solid ellipsoid
+        width = 2*np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
+        height = 2*np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
 
         ellipse = patches.Ellipse((p['x{}'.format(body)], p['z{}'.format(body)]),
                                   width, height,
@@ -1467,8 +1468,9 @@ class Moore2019ParameterSet(ParameterSet):
         kyy = p['k{}yy'.format(body)]
         alpha = p['alpha{}'.format(body)]
 
-        width = np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
-        height = np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
+        # twice the semi-axes of the solid ellipsoid
+        width = 2*np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
+        height = 2*np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
 
         ellipse = patches.Ellipse((p['x{}'.format(body)],
                                    p['z{}'.format(body)]), width, height,
-- 
2.43.0


From 90505451370f2980cfb3db2e1721ef0972f784b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:36 +0000
Subject: [PATCH 37/51] fix: inertia ellipses of measured bicycles are oriented
 along the principal axes

The y axis was recognized by the sum of the components of an axis (wrong or
missing for aligned bodies and for a reversed axis), the angle lost its sign,
and the plotly version passed degrees to cos() and swapped the axes.
---
 bicycleparameters/main.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 76e4e95..27756ae 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -559,7 +559,7 @@ class Bicycle(object):
                 # which row in C is the y vector
                 uy = np.array([0., 1., 0.])
                 for i, row in enumerate(C):
-                    if np.abs(np.sum(row - uy)) < 1E-10:
+                    if np.abs(np.abs(np.dot(row, uy)) - 1.) < 1E-10:
                         yrow = i
                 # remove the row for the y vector
                 Ip2D = np.delete(Ip, yrow, 0)
@@ -576,7 +576,7 @@ class Bicycle(object):
                 # principal moment of inertia
                 width = Imax * unitWidth
                 height = Imax * unitHeight
-                angle = -np.degrees(np.arccos(C2D[0, 0]))
+                angle = np.degrees(np.arctan2(-C2D[0, 1], C2D[0, 0]))
                 ellipse = Ellipse((center[0], center[1]), width, height,
                                   angle=angle, fill=False,
                                   color=partColors[part], alpha=0.25)
@@ -789,7 +789,7 @@ class Bicycle(object):
                     # which row in C is the y vector
                 uy = np.array([0., 1., 0.])
                 for i, row in enumerate(C):
-                    if np.abs(np.sum(row - uy)) < 1E-10:
+                    if np.abs(np.abs(np.dot(row, uy)) - 1.) < 1E-10:
                         yrow = i
                     # remove the row for the y vector
                 Ip2D = np.delete(Ip, yrow, 0)
@@ -806,14 +806,14 @@ class Bicycle(object):
                 # the maximum principal moment of inertia
                 width = Imax * unitWidth
                 height = Imax * unitHeight
-                angle = -np.degrees(np.arccos(C2D[0, 0]))
+                angle = np.arctan2(-C2D[0, 1], C2D[0, 0])
                 x_center = center[0]
                 y_center = center[1]
                 x_ep, y_ep = plot._generate_ellipse_plot_data(
                     x_center=x_center, y_center=y_center,
                     ax1=[np.cos(angle), np.sin(angle)],
                     ax2=[-np.sin(angle), np.cos(angle)],
-                    a=height, b=width, N=100)
+                    a=width, b=height, N=100)
 
                 fig1.add_scatter(x=x_ep, y=y_ep, mode='lines',
                                  name='Inertia of ' + part,
-- 
2.43.0


From cba8beab23fc03e79b43eac3cde570925adc4b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:25 +0000
Subject: [PATCH 38/51] fix: the drawn steer axis meets the ground at its trail
 also when upright

Extrapolating through the two feet on the steer axis divided by zero when
they coincide (upright steer axis and equal wheels).
---
 bicycleparameters/main.py           | 4 ++--
 bicycleparameters/parameter_sets.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 27756ae..5d52504 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -600,7 +600,7 @@ class Bicycle(object):
         ax.plot(deex, -deez, 'k')
 
         # plot the steer axis
-        dx3 = deex[2] + deez[2] * (deex[2] - deex[1]) / (deez[1] - deez[2])
+        dx3 = par['w'] + par['c']
         ax.plot([deex[2], dx3],  [-deez[2], 0.], 'k--')
 
         # don't plot the pendulum lines if a rider has been added because the
@@ -864,7 +864,7 @@ class Bicycle(object):
                                   hovertemplate="%{x:.3f}<br>%{y:.3f}"))
 
         # plot the steer axis
-        dx3 = deex[2] + deez[2] * (deex[2] - deex[1]) / (deez[1] - deez[2])
+        dx3 = par['w'] + par['c']
 
         fig1.add_trace(go.Scatter(x=[deex[2], dx3], y=[-deez[2], 0.],
                                   mode='lines',
diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index fa459c8..049003d 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -63,7 +63,7 @@ def _plot_geometry_from_benchmark(ax, parameters, show_steer_axis=True):
 
     if show_steer_axis:
         # plot the steer axis
-        dx3 = deex[2] - deez[2] * (deex[2] - deex[1]) / (-deez[1] + deez[2])
+        dx3 = p['w'] + p['c']
         ax.plot([deex[2], dx3], [deez[2], 0.], 'k--')
 
     return ax
-- 
2.43.0


From 5a2d469a4f0a346953cc5f0b85594e2f889600da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 39/51] fix: the app's table shows the steer axis tilt with its
 decimals

The tilt was truncated to whole degrees, and the truncated value was plotted
after any later interaction.
---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index ed1611e..3d44c38 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -314,7 +314,7 @@ def populate_wheel_data(value, n_clicks):
     lamD = data[2]
     radians = lamD.get('data')
     degrees = np.rad2deg(radians)
-    data[2] = {'data': int(degrees)}
+    data[2] = {'data': round(float(degrees), 10)}
 
     for c, d in zip(genLabels, data):
         zipped = {}
-- 
2.43.0


From 526f859aacfbac138135ee4555daedff1c0f5b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 40/51] fix: the app's geometry and eigenvalue figures go to
 their own graphs

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index 3d44c38..cee90d8 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -396,7 +396,7 @@ def plot_update(value, wheel, frame, general, options, slider):
     eigen_plot = Bike._plot_eigenvalues_vs_speed_plotly(
         speeds, show=False, stability_region=stability_option)
 
-    return eigen_plot, geo_plot
+    return geo_plot, eigen_plot
 
 
 # sets loading notification for the geometry plot
-- 
2.43.0


From 0ffa9ce003261b1a01e282147505d0bd8ae4fd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 41/51] fix: the app plots a speed range of a single speed

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index cee90d8..dc4eaf5 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -355,7 +355,7 @@ def plot_update(value, wheel, frame, general, options, slider):
     minBound = rangeSliderData[0]
     maxBound = rangeSliderData[1]
     steps = (maxBound-minBound)/0.1
-    speeds = np.linspace(minBound, maxBound, num=int(steps))
+    speeds = np.linspace(minBound, maxBound, num=max(int(steps), 1))
 
     # create Bike using default data based on dropdown menu value
     Bike = bp.Bicycle(value, pathToData=PATH_TO_APP_DATA)
-- 
2.43.0


From 6cdd9b5fae2c44c4ba962fc53b6493cba35f2a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:38 +0000
Subject: [PATCH 42/51] fix: a rider's elbows do not end up twisted upwards or
 bent backwards

---
 bicycleparameters/rider.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bicycleparameters/rider.py b/bicycleparameters/rider.py
index cecf6e7..85e536d 100644
--- a/bicycleparameters/rider.py
+++ b/bicycleparameters/rider.py
@@ -337,6 +337,18 @@ def rider_on_bike(benchmarkPar, measuredPar, yeadonMeas, yeadonCFG,
 
     solution = fsolve(zero, guess)
 
+    # the equations also hold for arms that are twisted such that the elbows
+    # point upwards or bend backwards, in that case search again starting with
+    # more bent elbows
+    for arm in np.deg2rad([[-30.0, -5.0, 15.0, -60.0],
+                           [-45.0, -10.0, 20.0, -90.0],
+                           [-20.0, -5.0, 15.0, -110.0]]):
+        if abs(solution[4]) <= np.pi/2.0 and solution[5] <= 0.0:
+            break
+        other = fsolve(zero, guess[:2] + list(arm) + guess[6:])
+        if np.allclose(zero(other), 0.0):
+            solution = other
+
     cfg_dict = human.CFG.copy()
     cfg_dict['PJ1extension'] = solution[0]
     cfg_dict['J1J2flexion'] = solution[1]
-- 
2.43.0


From 7ec9894407ec1b10192d610ebe1d8bb4087bba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:42 +0000
Subject: [PATCH 43/51] fix: uncertainties are removed from lists with exact
 values

---
 bicycleparameters/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index d9957f3..780600b 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -111,7 +111,7 @@ def remove_uncertainties(dictionary):
         except AttributeError:
             # this is the case if the value is an array of ufloats
             try:
-                noUncert[k] = [x.nominal_value for x in v]
+                noUncert[k] = [getattr(x, 'nominal_value', x) for x in v]
             except TypeError:
                 # this is the case if the value is a float
                 noUncert[k] = v
-- 
2.43.0


From 2ad5c6d6d44254144f83eaf3e38dfc6bc49dabc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:42 +0000
Subject: [PATCH 44/51] fix: pendulum lines are drawn when they are vertical

---
 bicycleparameters/main.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 5d52504..3b69ed5 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -620,9 +620,11 @@ class Bicycle(object):
                                                                      zcom))
                     comLineLength = penInertias[part][i]
                     xPlus = comLineLength / 2. * np.cos(np.arctan(m))
+                    zPlus = comLineLength / 2. * np.sin(np.arctan(m))
                     x = np.array([xPoint - xPlus,
                                   xPoint + xPlus])
-                    z = -m * x - b
+                    z = -np.array([zPoint - zPlus,
+                                   zPoint + zPlus])
                     ax.plot(x, z, color=partColors[part])
                     # label the pendulum lines with a number
                     ax.text(x[0], z[0], str(i + 1))
@@ -901,9 +903,11 @@ class Bicycle(object):
                                                                      zcom))
                     comLineLength = penInertias[part][i]
                     xPlus = comLineLength / 2. * np.cos(np.arctan(m))
+                    zPlus = comLineLength / 2. * np.sin(np.arctan(m))
                     xp = np.array([xPoint - xPlus,
                                   xPoint + xPlus])
-                    zp = -m*xp - b
+                    zp = -np.array([zPoint - zPlus,
+                                    zPoint + zPlus])
 
                     fig1.add_scatter(x=xp, y=zp, mode='lines', name='Pendulum',
                                      line=dict(dash='dash'))
-- 
2.43.0


From 498f910b4b3f85ee3b936368fa8b2e356f5a3265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:42 +0000
Subject: [PATCH 45/51] fix: the plotly drawing shows the whole rider

---
 bicycleparameters/main.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 3b69ed5..af0c451 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1022,6 +1022,33 @@ class Bicycle(object):
             # K1: upper leg, knee to hip
             start = rider.yeadon_vec_to_bicycle_vec(human.K2.pos, mpar, bpar)
             end = rider.yeadon_vec_to_bicycle_vec(human.K1.pos, mpar, bpar)
+            fig1.add_trace(go.Scatter(x=[start[0, 0], end[0, 0]],
+                                      y=[-start[2, 0], -end[2, 0]],
+                                      mode='lines'))
+            # torso
+            start = rider.yeadon_vec_to_bicycle_vec(human.K1.pos, mpar, bpar)
+            end = rider.yeadon_vec_to_bicycle_vec(human.B1.pos, mpar, bpar)
+            fig1.add_trace(go.Scatter(x=[start[0, 0], end[0, 0]],
+                                      y=[-start[2, 0], -end[2, 0]],
+                                      mode='lines'))
+            # B1: upper arm
+            start = rider.yeadon_vec_to_bicycle_vec(human.B1.pos, mpar, bpar)
+            end = rider.yeadon_vec_to_bicycle_vec(human.B2.pos, mpar, bpar)
+            fig1.add_trace(go.Scatter(x=[start[0, 0], end[0, 0]],
+                                      y=[-start[2, 0], -end[2, 0]],
+                                      mode='lines'))
+            # B2: lower arm, elbow to tip of fingers
+            start = rider.yeadon_vec_to_bicycle_vec(human.B2.pos, mpar, bpar)
+            end = rider.yeadon_vec_to_bicycle_vec(human.B2.end_pos, mpar, bpar)
+            fig1.add_trace(go.Scatter(x=[start[0, 0], end[0, 0]],
+                                      y=[-start[2, 0], -end[2, 0]],
+                                      mode='lines'))
+            # C: chest/head
+            start = rider.yeadon_vec_to_bicycle_vec(human.B1.pos, mpar, bpar)
+            end = rider.yeadon_vec_to_bicycle_vec(human.C.end_pos, mpar, bpar)
+            fig1.add_trace(go.Scatter(x=[start[0, 0], end[0, 0]],
+                                      y=[-start[2, 0], -end[2, 0]],
+                                      mode='lines'))
 
         fig1.update_layout(title=dict(text='Bicycle geometry',
                            font=dict(family="Segoe UI", size=25)),
-- 
2.43.0


From 0bd918f29562630a21461890c9c867a573aa2661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:14 +0000
Subject: [PATCH 46/51] fix: writing periods kept indented old periods and
 rewrote other entries starting with T

---
 bicycleparameters/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 780600b..7e40c12 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -201,18 +201,22 @@ def write_periods_to_file(pathToRawFile, mp):
 
     '''
 
+    def is_period(text):
+        # periods are named Tc... or Tt..., other entries may start with T too
+        return text.strip().startswith(('Tc', 'Tt'))
+
     # clear any period data from the file
     f = open(pathToRawFile, 'r')
     baseData = ''
     for line in f:
-        if not line.startswith('T'):
+        if not is_period(line):
             baseData += line
     f.close()
     # the last line of the file may not be terminated
     if baseData and not baseData.endswith('\n'):
         baseData += '\n'
     # add the periods to the base data
-    periodKeys = [x for x in mp.keys() if x.startswith('T')]
+    periodKeys = [x for x in mp.keys() if is_period(x)]
     periodKeys.sort()
     withPeriods = baseData
     for k in periodKeys:
-- 
2.43.0


From fef4ed27e68d5b2e456330d219fe40d77116aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 47/51] fix: parameter symbols that named another parameter

Moore2012 and MooreRiderLean2012 labelled the moment of inertia of the
front frame with the symbol of the rear wheel's, Moore2019 the mass of the
rider with that of the rear frame and zH as a difference.
---
 bicycleparameters/parameter_sets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 049003d..1035a31 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1058,7 +1058,7 @@ class Moore2019ParameterSet(ParameterSet):
         'mD': r'm_D',
         'mF': r'm_F',
         'mH': r'm_H',
-        'mP': r'm_B',
+        'mP': r'm_P',
         'mR': r'm_R',
         'rF': r'r_F',
         'rR': r'r_R',
@@ -1069,7 +1069,7 @@ class Moore2019ParameterSet(ParameterSet):
         'xH': r'x_H',
         'xP': r'x_P',
         'zD': r'z_D',
-        'zH': r'z-H',
+        'zH': r'z_H',
         'zP': r'z_P',
     }
 
@@ -1684,7 +1684,7 @@ class Moore2012ParameterSet(ParameterSet):
         'ic33': r'I_{C33}',
         'id11': r'I_{D11}',
         'id22': r'I_{D22}',
-        'ie11': r'I_{D11}',
+        'ie11': r'I_{E11}',
         'ie22': r'I_{E22}',
         'ie31': r'I_{E31}',
         'ie33': r'I_{E33}',
@@ -1796,7 +1796,7 @@ class MooreRiderLean2012ParameterSet(ParameterSet):
         'ic33': r'I_{C33}',
         'id11': r'I_{D11}',
         'id22': r'I_{D22}',
-        'ie11': r'I_{D11}',
+        'ie11': r'I_{E11}',
         'ie22': r'I_{E22}',
         'ie31': r'I_{E31}',
         'ie33': r'I_{E33}',
-- 
2.43.0


From 7aad7c469a096c625e613a9d21ab48f1030ef816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:50 +0000
Subject: [PATCH 48/51] fix: matrices computed in the number type of array
 overrides

Scalar overrides are converted to floats but arrays were used as they are, so
arrays of small integers overflowed (v**2) and float32 arrays lost digits.
Bicycle.eig computed with the given speeds likewise.
---
 bicycleparameters/main.py   | 2 +-
 bicycleparameters/models.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index af0c451..3b58fe1 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1211,7 +1211,7 @@ class Bicycle(object):
         model.
 
         '''
-        speeds = np.atleast_1d(speeds)
+        speeds = np.atleast_1d(np.asarray(speeds, dtype=float))
 
         par = io.remove_uncertainties(self.parameters['Benchmark'])
 
diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 31c884b..e03c8a8 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -69,7 +69,7 @@ class _Model(abc.ABC):
                                'same length.')
                         raise ValueError(msg)
                     array_keys.append(key)
-                    par[key] = val
+                    par[key] = np.asarray(val, dtype=float)
 
         return par, array_keys, array_len
 
-- 
2.43.0


From a833d00c621e177dab37eb7a4abb451f7ed302c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:45 +0000
Subject: [PATCH 49/51] fix: modal controllability of scalar parameters raised

---
 bicycleparameters/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index e03c8a8..60e7149 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -903,7 +903,8 @@ class Meijaard2007Model(_Model):
 
         _, B = self.form_state_space_matrices(**parameter_overrides)
         evals, evecs = self.calc_eigen(left=True, **parameter_overrides)
-        evals, evecs = sort_eigenmodes(evals, evecs)
+        if len(evals.shape) == 2:  # array version, modes tracked over the array
+            evals, evecs = sort_eigenmodes(evals, evecs)
 
         def mod_cont(q, b, acute=True):
             """Returns the modal controllability value of the eigenvector q and
-- 
2.43.0


From 8c48dffb31571ab0be44b1696d46dc2fb05fde97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:27 +0000
Subject: [PATCH 50/51] fix: periods of recordings with late or slow times were
 wrong

---
 bicycleparameters/period.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index a1fef76..25616e5 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -233,7 +233,12 @@ def get_period(data, sample_rate_or_time, pathToPlotFile):
         x = np.linspace(0.0, (len(y) - 1)/float(sample_rate), num=len(y))
     else:
         x = np.asarray(sample_rate_or_time)
-        sample_rate = int(1.0/np.mean(np.diff(x)))  # approximate
+        sample_rate = 1.0/np.mean(np.diff(x))  # approximate
+
+    # fit over the time since the first sample, the amplitudes of the decaying
+    # function are ill conditioned if the recorded times start late
+    time = x
+    x = time - time[0]
 
     def fitfunc(p, t):
         '''Decaying oscillation function.'''
@@ -285,7 +290,7 @@ def get_period(data, sample_rate_or_time, pathToPlotFile):
 
     # plot the data and save it to file
     fig, ax = plt.subplots(layout='constrained')
-    plot_osfit(x, y, lscurve, p1, rsq, T, m=np.max(x), fig=fig)
+    plot_osfit(time, y, lscurve, p1, rsq, T, m=np.max(time), fig=fig)
     fig.savefig(pathToPlotFile)
     plt.close()
 
-- 
2.43.0


From f57d4541f4a1739fe1f6708143e15b41fe0c8f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:21 +0000
Subject: [PATCH 51/51] fix: average_rectified_sections fails on a record that
 crosses its mean at the first sample

---
 bicycleparameters/period.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index 25616e5..0fcba47 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -37,6 +37,8 @@ def average_rectified_sections(data):
     meanSubData = data - np.mean(data)
     # find the zero crossings
     zeroCrossings = np.where(np.diff(np.sign(meanSubData)))[0]
+    # a crossing at the first sample does not end a section
+    zeroCrossings = zeroCrossings[zeroCrossings > 0]
     # add a zero to the beginning
     crossings = np.concatenate((np.array([0]), zeroCrossings))
     # find the mean value of the rectified sections and the local indice
-- 
2.43.0

