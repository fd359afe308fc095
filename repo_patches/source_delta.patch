From 09b3ca68534d097edc5c856649c166645aeb48c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:34 +0000
Subject: [PATCH 01/30] fix: use the Box Cox parameter given by the user
 instead of re-estimating it

---
 otpod/_pod.py                              |  6 +++++-
 otpod/_univariate_linear_model_analysis.py |  4 +++-
 otpod/_univariate_linear_model_pod.py      | 22 +++++++++++++++++++++-
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 8b86305..c336203 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -28,12 +28,14 @@ class POD(object):
         self._saturationThres = saturationThres
 
         # if Box Cox is a float the transformation is enabled with the given value
-        if type(boxCox) is float:
+        if isinstance(boxCox, float):
             self._lambdaBoxCox = boxCox
             self._boxCox = True
         else:
             self._lambdaBoxCox = None
             self._boxCox = boxCox
+        # Box Cox parameter imposed by the user, None if it must be estimated
+        self._userLambdaBoxCox = self._lambdaBoxCox
 
         self._size = self._inputSample.getSize()
         self._dim = self._inputSample.getDimension()
@@ -324,6 +326,8 @@ class POD(object):
             self._lambdaBoxCox, self._graphBoxCox = computeBoxCox(
                 inputSample, signals, shift
             )
+            if self._userLambdaBoxCox is not None:
+                self._lambdaBoxCox = self._userLambdaBoxCox
 
             # Transformation of data
             boxCoxTransform = ot.BoxCoxTransform([self._lambdaBoxCox])
diff --git a/otpod/_univariate_linear_model_analysis.py b/otpod/_univariate_linear_model_analysis.py
index 9a623ef..580782f 100755
--- a/otpod/_univariate_linear_model_analysis.py
+++ b/otpod/_univariate_linear_model_analysis.py
@@ -147,12 +147,14 @@ class UnivariateLinearModelAnalysis:
             self._resDistFact = resDistFact
 
         # if Box Cox is a float the transformation is enabled with the given value
-        if type(boxCox) is float:
+        if isinstance(boxCox, float):
             self._lambdaBoxCox = boxCox
             self._boxCox = True
         else:
             self._lambdaBoxCox = None
             self._boxCox = boxCox
+        # Box Cox parameter imposed by the user, None if it must be estimated
+        self._userLambdaBoxCox = self._lambdaBoxCox
 
         self._size = self._inputSample.getSize()
         self._dim = self._inputSample.getDimension()
diff --git a/otpod/_univariate_linear_model_pod.py b/otpod/_univariate_linear_model_pod.py
index 485c06b..ee414ad 100755
--- a/otpod/_univariate_linear_model_pod.py
+++ b/otpod/_univariate_linear_model_pod.py
@@ -133,6 +133,13 @@ class UnivariateLinearModelPOD(POD):
         # self._dim
         # self._censored
 
+        # the bootstrap replicates use the value imposed by the user, a value
+        # estimated by the analysis is estimated again on each replicate
+        if self._analysis is not None:
+            self._bootstrapLambda = self._analysis._userLambdaBoxCox
+        else:
+            self._bootstrapLambda = self._userLambdaBoxCox
+
         # assertion input dimension is 1
         assert self._dim == 1, "Dimension inputSample must be 1."
 
@@ -157,6 +164,7 @@ class UnivariateLinearModelPOD(POD):
             self._saturationThres,
             self._boxCox,
             self._censored,
+            self._userLambdaBoxCox,
         )
         # get results
         self._defects = results["defects"]
@@ -480,6 +488,7 @@ class UnivariateLinearModelPOD(POD):
                 resDistFact,
                 boxCox,
                 censored,
+                userLambda,
             ):
 
                 results = _computeLinearModel(
@@ -490,6 +499,7 @@ class UnivariateLinearModelPOD(POD):
                     saturationThres,
                     boxCox,
                     censored,
+                    userLambda,
                 )
 
                 self.intercept = results["intercept"]
@@ -521,6 +531,7 @@ class UnivariateLinearModelPOD(POD):
                 self._resDistFact,
                 self._boxCox,
                 self._censored,
+                self._bootstrapLambda,
             )
 
             PODcoll.append(model.PODmodel)
@@ -536,7 +547,14 @@ class UnivariateLinearModelPOD(POD):
 
 
 def _computeLinearModel(
-    inputSample, outputSample, detection, noiseThres, saturationThres, boxCox, censored
+    inputSample,
+    outputSample,
+    detection,
+    noiseThres,
+    saturationThres,
+    boxCox,
+    censored,
+    userLambda=None,
 ):
     """
     Run filerCensoredData and build the linear regression model.
@@ -565,6 +583,8 @@ def _computeLinearModel(
 
         # optimization required, get optimal lambda without graph
         lambdaBoxCox, graphBoxCox = computeBoxCox(defects, signals, shift)
+        if userLambda is not None:
+            lambdaBoxCox = userLambda
 
         # Transformation of data
         boxCoxTransform = ot.BoxCoxTransform([lambdaBoxCox])
-- 
2.43.0


From 18260050d379ddf8d260972b7fd6f6bea269287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:34 +0000
Subject: [PATCH 02/30] fix: drawBoxCoxLikelihood is available when the Box Cox
 parameter is given

---
 otpod/_univariate_linear_model_analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/otpod/_univariate_linear_model_analysis.py b/otpod/_univariate_linear_model_analysis.py
index 580782f..85339b9 100755
--- a/otpod/_univariate_linear_model_analysis.py
+++ b/otpod/_univariate_linear_model_analysis.py
@@ -218,11 +218,11 @@ class UnivariateLinearModelAnalysis:
             else:
                 shift = 0.0
 
+            # get the optimal lambda and the graph, the optimal value is used
+            # only if lambda is not given by the user
+            optimalLambda, self._graphBoxCox = computeBoxCox(defects, signals, shift)
             if self._lambdaBoxCox is None:
-                # optimization required, get optimal lambda and graph
-                self._lambdaBoxCox, self._graphBoxCox = computeBoxCox(
-                    defects, signals, shift
-                )
+                self._lambdaBoxCox = optimalLambda
 
             # Transformation of data
             boxCoxTransform = ot.BoxCoxTransform([self._lambdaBoxCox])
-- 
2.43.0


From 2afd0a9091098c3348c20e8c0f82b34ed4dde44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:49 +0000
Subject: [PATCH 03/30] fix: keep the Box Cox parameter of the data after the
 quantile regression bootstrap

---
 otpod/_pod.py                     | 1 +
 otpod/_quantile_regression_pod.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index c336203..b29a838 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -36,6 +36,7 @@ class POD(object):
             self._boxCox = boxCox
         # Box Cox parameter imposed by the user, None if it must be estimated
         self._userLambdaBoxCox = self._lambdaBoxCox
+        self._graphBoxCox = None
 
         self._size = self._inputSample.getSize()
         self._dim = self._inputSample.getDimension()
diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index b9bd156..1f2c29f 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -157,6 +157,8 @@ class QuantileRegressionPOD(POD):
         data[:, 1] = self._outputSample
         # bootstrap of the data
         bootstrapExp = ot.BootstrapExperiment(data)
+        # the replicates estimate their own Box Cox parameter
+        lambdaBoxCox, graphBoxCox = self._lambdaBoxCox, self._graphBoxCox
         # create a numerical sample which contains for all simulations the
         # defect quantile value. The goal is to compute the QuantilePerComponent
         # of the simulation for each defect quantile (columns)
@@ -210,6 +212,7 @@ class QuantileRegressionPOD(POD):
             self._defectsPerQuantile[i, :] = defectList
             if self._verbose:
                 updateProgress(i, self._simulationSize, "Computing defect quantile")
+        self._lambdaBoxCox, self._graphBoxCox = lambdaBoxCox, graphBoxCox
 
     def getPODModel(self):
         """
-- 
2.43.0


From 317caed812a0f3c4e00527ab8503e2dc1b177485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:13 +0000
Subject: [PATCH 04/30] fix: re-optimize the covariance parameters of
 AdaptiveSignalPOD with the fitter

---
 otpod/_adaptive_signal_pod.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 34f9e3e..be6b624 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -377,10 +377,12 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                 if self._verbose:
                     print("Optimization of the covariance model parameters...")
 
-                algoKriging.setOptimizeParameters(True)
-                algoKriging = self._estimKrigingTheta(
-                    algoKriging, lowerBound, upperBound, self._initialStartSize
+                fitter.setOptimizeParameters(True)
+                fitter = self._estimKrigingTheta(
+                    fitter, lowerBound, upperBound, self._initialStartSize
                 )
+                fitter.run()
+                algoKriging = ot.GaussianProcessRegression(fitter.getResult())
                 algoKriging.run()
 
             # Get kriging results
-- 
2.43.0


From 68283255d05e4d1b71b6734c143e75ef45956317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:13 +0000
Subject: [PATCH 05/30] fix: keep the normalization of the kriging model in
 AdaptiveSignalPOD

---
 otpod/_adaptive_signal_pod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index be6b624..143ee10 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -422,6 +422,8 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                     )
 
         # Compute the final POD with the last updated kriging model
+        # normalization of the last kriging model
+        self._transformation = transformation
         if self._verbose:
             print("\nStart computing the POD with the last updated kriging model")
         # compute the sample containing the POD values for all defect
-- 
2.43.0


From 01567803bbe2a16f6957d8a9d8c2a5ac3b5eedf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:13 +0000
Subject: [PATCH 06/30] fix: use the updated kriging model in the next
 iteration of AdaptiveSignalPOD

---
 otpod/_adaptive_signal_pod.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 143ee10..3afba0c 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -392,6 +392,9 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                 self._basis = self._krigingResult.getBasis()
             except AttributeError:
                 self._basis = self._krigingResult.getBasisCollection()[0]  # ot<1.21
+            metamodel = ot.ComposedFunction(
+                self._krigingResult.getMetaModel(), transformation
+            )
 
             self._Q2 = self._computeQ2(
                 self._input, self._signals, self._krigingResult, transformation
-- 
2.43.0


From cbbe2801dddc4fc0efc49fe1a6c6af5514626bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:13 +0000
Subject: [PATCH 07/30] fix: evaluate the chaos POD of the Sobol indices at the
 chosen defect sizes

---
 otpod/_sobol_indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index 3b3fd0e..a518def 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -573,7 +573,7 @@ class PODaggrChaos(ot.OpenTURNSPythonFunction):
         # create sample combining all defect size with the given X
         x = np.array(X, ndmin=2)
         x = x.repeat(self.defectNumber, axis=0)
-        xWitha = np.concatenate((np.vstack(self.chaosPOD._defectSizes), x), axis=1)
+        xWitha = np.concatenate((np.vstack(self.defectSizes), x), axis=1)
         # add randomness from the residual, identical for all defect size
         residualsSample = np.hstack(
             self.chaosPOD._normalDist.getSample(self.simulationSize)
-- 
2.43.0


From e23d3f261955439a09c5408e573fe0334803caa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:29 +0000
Subject: [PATCH 08/30] fix: setDefectSizes leaves the defect sizes unchanged
 when it rejects the given values

---
 otpod/_adaptive_hitmiss_pod.py | 2 +-
 otpod/_kriging_tools.py        | 2 +-
 otpod/_pli_pod.py              | 2 +-
 otpod/_polynomial_chaos_pod.py | 2 +-
 otpod/_sobol_indices.py        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 8872e83..d8a5ab2 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -737,7 +737,6 @@ class AdaptiveHitMissPOD(POD):
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -746,6 +745,7 @@ class AdaptiveHitMissPOD(POD):
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 035c97c..453c88c 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -256,7 +256,6 @@ class KrigingBase:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -265,6 +264,7 @@ class KrigingBase:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_pli_pod.py b/otpod/_pli_pod.py
index 898f505..d11f708 100755
--- a/otpod/_pli_pod.py
+++ b/otpod/_pli_pod.py
@@ -154,7 +154,6 @@ class PLIBase:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._POD._input[:, 0].getMin()[0]
         maxMax = self._POD._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -163,6 +162,7 @@ class PLIBase:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         # update defect number
         self._defectNumber = self._defectSizes.shape[0]
         # update result matrix
diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 5a3beb2..9a4ccae 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -480,7 +480,6 @@ class PolynomialChaosPOD(POD):
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -489,6 +488,7 @@ class PolynomialChaosPOD(POD):
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index a518def..31e3243 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -381,7 +381,6 @@ class SobolIndices:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._POD._input[:, 0].getMin()[0]
         maxMax = self._POD._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -390,6 +389,7 @@ class SobolIndices:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def getDefectSizes(self):
-- 
2.43.0


From 582009de656586c8aebae726f8036fbc83c55782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:29 +0000
Subject: [PATCH 09/30] fix: report a wrong label dimension with the expected
 message

---
 otpod/_pli.py           | 4 ++--
 otpod/_sobol_indices.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index 65dc933..b88df37 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -367,8 +367,8 @@ class PLI:
             label = ot.Description.BuildDefault(self._dim, "X")
         else:
             if len(label) != self._dim:
-                raise AttributeError("The label dimension must be {}.").format(
-                    self._dim
+                raise AttributeError(
+                    "The label dimension must be {}.".format(self._dim)
                 )
 
         # compute the confidence interval
diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index 31e3243..c22c3c0 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -205,8 +205,8 @@ class SobolIndices:
             label = ot.Description.BuildDefault(self._dim, "X")
         else:
             if len(label) != self._dim:
-                raise AttributeError("The label dimension must be {}.").format(
-                    self._dim
+                raise AttributeError(
+                    "The label dimension must be {}.".format(self._dim)
                 )
 
         graph = self._sa.draw()
@@ -293,8 +293,8 @@ class SobolIndices:
             label = ot.Description.BuildDefault(self._dim, "X")
         else:
             if len(label) != self._dim:
-                raise AttributeError("The label dimension must be {}.").format(
-                    self._dim
+                raise AttributeError(
+                    "The label dimension must be {}.".format(self._dim)
                 )
 
         # get the indices values that can be computed
-- 
2.43.0


From d54e76cb83457846fe715f8e0e67c6b28f8380ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:29 +0000
Subject: [PATCH 10/30] fix: accept only slightly negative kriging variances in
 the Sobol indices

---
 otpod/_sobol_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index c22c3c0..7f12f6f 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -502,13 +502,13 @@ class PODaggrKriging(ot.OpenTURNSPythonFunction):
 
         # check if the variance is positive of not, accept negative values
         # if they are > -1e-2, else raise an error.
-        if (var < 0).all():
+        if (var < 0).any():
             logging.warning(
                 "Warning : some variance values are negatives, "
                 + "the kriging model may not be accurate enough."
             )
 
-            if (var[var < 0] < 1e-2).all():
+            if (var[var < 0] < -1e-2).any():
                 raise ValueError(
                     "Variance values are lower than -1e-2. Please "
                     + "check the validity of the kriging model."
-- 
2.43.0


From be65db1ec0d4609f4e7bd003f43a3f6bd556b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:29 +0000
Subject: [PATCH 11/30] fix: draw the restarting point of the censored
 likelihood with the OpenTURNS generator

---
 otpod/_math_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/otpod/_math_tools.py b/otpod/_math_tools.py
index 009e3b2..1a83015 100755
--- a/otpod/_math_tools.py
+++ b/otpod/_math_tools.py
@@ -366,9 +366,9 @@ def computeLinearParametersCensored(
         iteration = 0
         while testMLE == np.inf and iteration < 100:
             iteration += 1
-            initialStartMLE = np.random.randn(3)
+            initialStartMLE = np.array(ot.Normal(3).getRealization())
             testMLE = func(initialStartMLE)
-        if iteration == 100:
+        if testMLE == np.inf:
             raise Exception(
                 "Maximum Likelihood optimization for censored "
                 + "data : cannot find initial starting point."
-- 
2.43.0


From 80f591415231112cfac590e72b4e39229c37fc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:49 +0000
Subject: [PATCH 12/30] fix: make KrigingPOD.setKrigingResult usable and define
 the transformation of a given result

---
 otpod/_kriging_pod.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index ab0a7b4..b252310 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -180,7 +180,7 @@ class KrigingPOD(POD, KrigingBase):
 
         # compute the Q2
         self._Q2 = self._computeQ2(
-            self._input, self._signals, self._krigingResult, transformation
+            self._input, self._signals, self._krigingResult, self._transformation
         )
         if self._verbose:
             print("kriging validation Q2 (>0.9): {:0.4f}".format(self._Q2))
@@ -203,7 +203,7 @@ class KrigingPOD(POD, KrigingBase):
                 defect,
                 self._detectionBoxCox,
                 self._krigingResult,
-                transformation,
+                self._transformation,
                 self._distribution,
                 self._simulationSize,
                 self._samplingSize,
@@ -219,20 +219,29 @@ class KrigingPOD(POD, KrigingBase):
 
         # The POD at confidence level is built in getPODCLModel() directly
 
-    def setKrigingResult(self, result):
+    def setKrigingResult(self, result, transformation=None):
         """
         Accessor to the kriging result.
 
         Parameters
         ----------
-        result : :py:class:`openturns.KrigingResult`
+        result : :py:class:`openturns.GaussianProcessRegressionResult`
             The kriging result.
         transformation : :py:class:`openturns.Function`
-            The normalization transformation.
+            The normalization transformation applied to the inputs before the
+            kriging model. Default is None : the inputs are not normalized.
         """
         try:
-            ot.KrigingResult(result)
-        except NotImplementedError:
-            raise Exception("The given parameter is not an KrigingResult.")
+            ot.GaussianProcessRegressionResult(result)
+        except (NotImplementedError, TypeError):
+            raise Exception(
+                "The given parameter is not a GaussianProcessRegressionResult."
+            )
+        if transformation is None:
+            zero = [0.0] * self._dim
+            transformation = ot.LinearFunction(
+                zero, zero, ot.IdentityMatrix(self._dim)
+            )
         self._krigingResult = result
+        self._transformation = transformation
         self._userKriging = True
-- 
2.43.0


From 394695efcb0d97a0626cad46b66ab44e209bc984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:07 +0000
Subject: [PATCH 13/30] fix: select the candidates of AdaptiveHitMissPOD
 between 0.1 and 0.8 when none is between pmin and pmax

---
 otpod/_adaptive_hitmiss_pod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index d8a5ab2..4c611da 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -275,8 +275,8 @@ class AdaptiveHitMissPOD(POD):
 
             # s'il n'a pas d indices on elargit p_min = 0.45, p_max=0.55
             if len(ind) == 0:
-                ind_p1 = np.where(probs < 0.1)[0]
-                ind_p2 = np.where(probs >= 0.8)[0]
+                ind_p1 = np.where(probs < 0.8)[0]
+                ind_p2 = np.where(probs >= 0.1)[0]
                 ind_p = np.intersect1d(ind_p2, ind_p1)
                 ind = ind_p
 
-- 
2.43.0


From f9d5b78b1f4e2e600b8aef105fd0c73504295716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:07 +0000
Subject: [PATCH 14/30] fix: create the graph directory of AdaptiveHitMissPOD

---
 otpod/_adaptive_hitmiss_pod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 4c611da..1238101 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -391,6 +391,8 @@ class AdaptiveHitMissPOD(POD):
                 plt.pause(0.001)
                 plt.show()
                 if self._graphDirectory is not None:
+                    if not os.path.exists(self._graphDirectory):
+                        os.makedirs(self._graphDirectory)
                     fig.savefig(
                         os.path.join(self._graphDirectory, "AdaptiveHitMissPOD_")
                         + str(algo_iteration),
-- 
2.43.0


From 2a7210c24124a27224bad988559690963243b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:07 +0000
Subject: [PATCH 15/30] fix: separate the sections of the file written by
 PODSummary.saveResults

---
 otpod/_pod_summary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index 7a95f2d..a2eb711 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -549,7 +549,7 @@ class PODSummary:
             fd.write(regressionResult)
             fd.write("\n\nResiduals analysis results\n\n")
             fd.write(residualsResult)
-            fd.write("Model validation results\n\n")
+            fd.write("\n\nModel validation results\n\n")
             fd.write(validationResult)
             fd.write("\n\nPOD results\n\n")
             fd.write(podResult)
-- 
2.43.0


From 12f3169e75ff88d42eae53fb3d1a2cbed9a8c834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:21 +0000
Subject: [PATCH 16/30] fix: leave the distribution given to PolynomialChaosPOD
 unchanged

---
 otpod/_polynomial_chaos_pod.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 9a4ccae..7dfc6d9 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -680,7 +680,9 @@ class PolynomialChaosPOD(POD):
             marginals = [ot.Uniform(inputMin[i], inputMax[i]) for i in range(self._dim)]
             self._distribution = ot.JointDistribution(marginals)
 
-        # put description of the inputSample into decription of the distribution
+        # put description of the inputSample into decription of the distribution,
+        # on a copy in order to keep unchanged the distribution of the user
+        self._distribution = ot.JointDistribution(self._distribution)
         self._distribution.setDescription(inputSample.getDescription())
 
         if self._adaptiveStrategy is None:
-- 
2.43.0


From 6f2d3f1d220e837c37595aa77bb1571531cf3dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:21 +0000
Subject: [PATCH 17/30] fix: run PolynomialChaosPOD with a given chaos result
 and no distribution

---
 otpod/_polynomial_chaos_pod.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 7dfc6d9..72f8caf 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -161,6 +161,9 @@ class PolynomialChaosPOD(POD):
             if self._verbose:
                 print("Polynomial chaos model completed")
             self._chaosResult = self._algoChaos.getResult()
+        elif self._distribution is None:
+            # the distribution of the given result is the default one
+            self._distribution = self._chaosResult.getDistribution()
 
             # get the metamodel
         self._chaosPred = self._chaosResult.getMetaModel()
-- 
2.43.0


From c89bef4491837af709854e38c33651f64aeb8a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:21 +0000
Subject: [PATCH 18/30] fix: draw the graphs of PODSummary with the default
 probability level

---
 otpod/_pod_summary.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index a2eb711..beb849f 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -866,11 +866,13 @@ class PODSummary:
                 logging.warning(
                     "POD for quantile regression cannot be drawn for the given parameters."
                 )
-            f, ax = self._PODqr.drawLinearModel(
-                probabilityLevel,
-                name=os.path.join(directory, "Quantile_regression_model.") + extension,
-            )
-            fig.append(f)
+            if probabilityLevel is not None:
+                f, ax = self._PODqr.drawLinearModel(
+                    probabilityLevel,
+                    name=os.path.join(directory, "Quantile_regression_model.")
+                    + extension,
+                )
+                fig.append(f)
         if self._activeMethods["PolynomialChaos"]:
             try:
                 f, ax = self._PODchaos.drawPOD(
-- 
2.43.0


From de243653320877e3edcafb1ea823beab87f7f6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:32 +0000
Subject: [PATCH 19/30] fix: keep the classifier of each iteration of
 AdaptiveHitMissPOD in the averaged confusion matrix

---
 otpod/_adaptive_hitmiss_pod.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 1238101..05a8fb1 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -351,9 +351,10 @@ class AdaptiveHitMissPOD(POD):
             p11 = self._confMat[1, 1]
             p10 = self._confMat[1, 0]
 
-            def agg_classifier(x_in):
+            # default values bind the classifier of this iteration
+            def agg_classifier(x_in, classifier=classif_algo_temp, p11=p11, p10=p10):
                 c = p11 - p10
-                p1_bayes = 1.0 / c * (classif_algo_temp(x_in)[:, 1] - p10)
+                p1_bayes = 1.0 / c * (classifier(x_in)[:, 1] - p10)
                 p1_bayes = np.vstack(
                     np.min(
                         np.array(
-- 
2.43.0


From 1adb2b77bed09639d1745d05f25d6978295400cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:30 +0000
Subject: [PATCH 20/30] fix: PLI failure sample keeps the boundary points of
 LessOrEqual and GreaterOrEqual events

---
 otpod/_pli.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index b88df37..ad55edc 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -150,18 +150,20 @@ class PLI:
             .getClassName()
         )
         threshold = self._monteCarloResult.getEvent().getThreshold()
-        if operator in ["Less", "LessOrEqual"]:
-            return np.array(inputSample)[
-                (np.hstack(np.array(outputSample)) < threshold), :
-            ]
-        elif operator in ["Greater", "GreaterOrEqual"]:
-            return np.array(inputSample)[
-                (np.hstack(np.array(outputSample)) > threshold), :
-            ]
+        output = np.hstack(np.array(outputSample))
+        if operator == "Less":
+            failure = output < threshold
+        elif operator == "LessOrEqual":
+            failure = output <= threshold
+        elif operator == "Greater":
+            failure = output > threshold
+        elif operator == "GreaterOrEqual":
+            failure = output >= threshold
         else:
             raise NameError(
                 'The comparison operator "{}" is not known.'.format(operator)
             )
+        return np.array(inputSample)[failure, :]
 
     def _computePfdelta(self, marginal, idelta):
         """
-- 
2.43.0


From f546922d3fbe78e9a226655585dc125a2bbdd673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:30 +0000
Subject: [PATCH 21/30] fix: PLI drawIndices accepts deltas given per marginal

---
 otpod/_pli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index ad55edc..b619e7d 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -388,7 +388,8 @@ class PLI:
 
             # define the abcsissa of the plot, either the delta values or the
             # hellinger distances if activated
-            x_support = np.hstack(self._originalDelta.copy())
+            column = marginal if self._originalDelta.shape[1] > 1 else 0
+            x_support = self._originalDelta[:, column].copy()
             xLabel = "Delta"
             if hellinger:
                 for i, d in enumerate(self._deltaValues[:, marginal]):
-- 
2.43.0


From ef4d19ce462db3ecaf360e6e385d0fc277dc4870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:30 +0000
Subject: [PATCH 22/30] fix: PLI drawIndices keeps the Hellinger distances when
 the deltas are integers

---
 otpod/_pli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index b619e7d..fceeaa5 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -389,7 +389,7 @@ class PLI:
             # define the abcsissa of the plot, either the delta values or the
             # hellinger distances if activated
             column = marginal if self._originalDelta.shape[1] > 1 else 0
-            x_support = self._originalDelta[:, column].copy()
+            x_support = self._originalDelta[:, column].astype(float)
             xLabel = "Delta"
             if hellinger:
                 for i, d in enumerate(self._deltaValues[:, marginal]):
-- 
2.43.0


From dfb7431fc583deeb3e2137918c7e6545a1f6687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:59 +0000
Subject: [PATCH 23/30] fix: PLI contour graph spans the deltas of its own
 marginal

---
 otpod/_pli_pod.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/otpod/_pli_pod.py b/otpod/_pli_pod.py
index d11f708..df7a5f9 100755
--- a/otpod/_pli_pod.py
+++ b/otpod/_pli_pod.py
@@ -381,11 +381,12 @@ class PLIBase:
         if label is None:
             label = "X{}".format(marginal)
 
+        column = marginal if self._delta.shape[1] > 1 else 0
         extent = (
             np.min(self._defectSizes[self._keepedDefect]),
             np.max(self._defectSizes[self._keepedDefect]),
-            np.min(self._delta),
-            np.max(self._delta),
+            np.min(self._delta[:, column]),
+            np.max(self._delta[:, column]),
         )
 
         Z = self._indices[:, marginal, self._keepedDefect]
-- 
2.43.0


From 6ec53185262ac3beb9f22ba6be4e1f38e227b74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:46 +0000
Subject: [PATCH 24/30] fix: seed the support vector classifier so that a run
 is reproducible

The probability estimates of SVC shuffle the data with numpy's global
generator, so two runs with the same openturns seed gave different PODs.
---
 otpod/_adaptive_hitmiss_pod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 05a8fb1..73e773c 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -230,6 +230,7 @@ class AdaptiveHitMissPOD(POD):
                         degree=degree,
                         gamma="auto",
                         probability=probability,
+                        random_state=0,
                         coef0=1,
                     ),
                     *self._ClassifierParameters
@@ -315,6 +316,7 @@ class AdaptiveHitMissPOD(POD):
                             degree=degree,
                             gamma="auto",
                             probability=probability,
+                            random_state=0,
                             coef0=1,
                         ),
                         *self._ClassifierParameters
-- 
2.43.0


From 17ad0fc3be17222cdd79c79829ad6de31714923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 25/30] fix: do not abort the run of the adaptive PODs when a
 graph level is not reached

---
 otpod/_adaptive_hitmiss_pod.py | 11 ++++++++++-
 otpod/_adaptive_signal_pod.py  | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 73e773c..92a3b35 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -389,7 +389,16 @@ class AdaptiveHitMissPOD(POD):
                 )
                 self._PODmodel = ot.PythonFunction(1, 1, interpModel)
                 # The POD at confidence level is built in getPODCLModel() directly
-                fig, ax = self.drawPOD(self._probabilityLevel, self._confidenceLevel)
+                probabilityLevel = self._probabilityLevel
+                if probabilityLevel is not None:
+                    try:
+                        self.computeDetectionSize(
+                            probabilityLevel, self._confidenceLevel
+                        )
+                    except Exception:
+                        # the current POD does not contain the given levels
+                        probabilityLevel = None
+                fig, ax = self.drawPOD(probabilityLevel, self._confidenceLevel)
                 plt.draw()
                 plt.pause(0.001)
                 plt.show()
diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 3afba0c..8f9a652 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -410,7 +410,16 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                 )
                 self._PODmodel = ot.PythonFunction(1, 1, interpModel)
                 # The POD at confidence level is built in getPODCLModel() directly
-                fig, ax = self.drawPOD(self._probabilityLevel, self._confidenceLevel)
+                probabilityLevel = self._probabilityLevel
+                if probabilityLevel is not None:
+                    try:
+                        self.computeDetectionSize(
+                            probabilityLevel, self._confidenceLevel
+                        )
+                    except Exception:
+                        # the current POD does not contain the given levels
+                        probabilityLevel = None
+                fig, ax = self.drawPOD(probabilityLevel, self._confidenceLevel)
                 plt.draw()
                 plt.pause(0.001)
                 plt.show()
-- 
2.43.0


From 34e8704b2dc070c60cddab1d057cf4b38472f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 26/30] fix: label the detection sizes with the exact levels

---
 otpod/_pod.py                     | 12 ++++++------
 otpod/_pod_summary.py             |  6 +++---
 otpod/_quantile_regression_pod.py |  6 +++---
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index b29a838..7d8f63e 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -125,7 +125,7 @@ class POD(object):
         detectionSize = ot.PointWithDescription(
             1, ot.Brent().solve(model, probabilityLevel, defectMin, defectMax)
         )
-        description = ["a" + str(int(probabilityLevel * 100))]
+        description = ["a" + "{:g}".format(100 * probabilityLevel)]
 
         # compute 'a90_95'
         if confidenceLevel is not None:
@@ -142,9 +142,9 @@ class POD(object):
             )
             description.append(
                 "a"
-                + str(int(probabilityLevel * 100))
+                + "{:g}".format(100 * probabilityLevel)
                 + "/"
-                + str(int(confidenceLevel * 100))
+                + "{:g}".format(100 * confidenceLevel)
             )
         # add description to the Point
         detectionSize.setDescription(description)
@@ -233,7 +233,7 @@ class POD(object):
                 "red",
                 "dashed",
                 "a"
-                + str(int(probabilityLevel * 100))
+                + "{:g}".format(100 * probabilityLevel)
                 + " : "
                 + str(round(detectionSize[0], 3)),
             )
@@ -245,9 +245,9 @@ class POD(object):
                     "blue",
                     "dashed",
                     "a"
-                    + str(int(probabilityLevel * 100))
+                    + "{:g}".format(100 * probabilityLevel)
                     + "/"
-                    + str(int(confidenceLevel * 100))
+                    + "{:g}".format(100 * confidenceLevel)
                     + " : "
                     + str(round(detectionSize[1], 3)),
                 )
diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index beb849f..d17561a 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -569,11 +569,11 @@ class PODSummary:
         self._dataPOD = [
             [
                 "",
-                "a" + str(int(probabilityLevel * 100)),
+                "a" + "{:g}".format(100 * probabilityLevel),
                 "a"
-                + str(int(probabilityLevel * 100))
+                + "{:g}".format(100 * probabilityLevel)
                 + "/"
-                + str(int(confidenceLevel * 100)),
+                + "{:g}".format(100 * confidenceLevel),
             ]
         ]
 
diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index 1f2c29f..333550b 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -308,7 +308,7 @@ class QuantileRegressionPOD(POD):
                 "The POD model does not contain, for the given "
                 + "defect interval, the wanted probability level."
             )
-        description = ["a" + str(int(probabilityLevel * 100))]
+        description = ["a" + "{:g}".format(100 * probabilityLevel)]
 
         # compute 'a90_95'
         if confidenceLevel is not None:
@@ -326,9 +326,9 @@ class QuantileRegressionPOD(POD):
             )
             description.append(
                 "a"
-                + str(int(probabilityLevel * 100))
+                + "{:g}".format(100 * probabilityLevel)
                 + "/"
-                + str(int(confidenceLevel * 100))
+                + "{:g}".format(100 * confidenceLevel)
             )
         # add description to the Point
         detectionSize.setDescription(description)
-- 
2.43.0


From 709a2186f8225eda8d90d78439859f58361eb7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 27/30] fix: save the Box Cox graph of the summary also when
 the given parameter is null

---
 otpod/_pod_summary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index d17561a..cfef937 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -765,7 +765,8 @@ class PODSummary:
 
         fig = []
 
-        if self._boxCox:
+        # boxCox may be the parameter itself, possibly null
+        if self._boxCox or isinstance(self._boxCox, float):
             f, ax = self._analysis.drawBoxCoxLikelihood(
                 os.path.join(directory, "BoxCox_likelihood.") + extension
             )
-- 
2.43.0


From fb7e938dcb4c35960514f9849f03d36cee6ab112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:35 +0000
Subject: [PATCH 28/30] fix: rebuild the default distribution and strategies at
 each run with the current settings

---
 otpod/_adaptive_hitmiss_pod.py |  4 +++-
 otpod/_adaptive_signal_pod.py  |  3 ++-
 otpod/_kriging_pod.py          |  3 ++-
 otpod/_kriging_tools.py        |  1 +
 otpod/_polynomial_chaos_pod.py | 15 +++++++++++----
 5 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 92a3b35..1876ef4 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -110,6 +110,7 @@ class AdaptiveHitMissPOD(POD):
         # self._censored
 
         self._distribution = None
+        self._userDistribution = False
         self._classifierType = "rf"  # random forest classifier or svc
         self._ClassifierParameters = [[100], [None], [2], [0]]
         self._classifierModel = None
@@ -187,7 +188,7 @@ class AdaptiveHitMissPOD(POD):
         """
 
         # Create an initial uniform distribution if not given
-        if self._distribution is None:
+        if not self._userDistribution:
             inputMin = self._input.getMin()
             inputMin[0] = np.min(self._defectSizes)
             inputMax = self._input.getMax()
@@ -774,6 +775,7 @@ class AdaptiveHitMissPOD(POD):
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
         self._distribution = distribution
+        self._userDistribution = True
 
     def getDistribution(self):
         """
diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 8f9a652..e8acc68 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -124,6 +124,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         self._basis = None
         self._covarianceModel = None
         self._distribution = None
+        self._userDistribution = False
         self._initialStartSize = 100
         self._samplingSize = 5000  # Number of MC simulations to compute POD
         self._candidateSize = 1000
@@ -185,7 +186,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         """
 
         # Create an initial uniform distribution if not given
-        if self._distribution is None:
+        if not self._userDistribution:
             inputMin = self._input.getMin()
             inputMin[0] = np.min(self._defectSizes)
             inputMax = self._input.getMax()
diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index b252310..f167154 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -101,6 +101,7 @@ class KrigingPOD(POD, KrigingBase):
         self._userKriging = False
         self._krigingResult = None
         self._distribution = None
+        self._userDistribution = False
         self._basis = None
         self._covarianceModel = None
         self._samplingSize = 5000
@@ -186,7 +187,7 @@ class KrigingPOD(POD, KrigingBase):
             print("kriging validation Q2 (>0.9): {:0.4f}".format(self._Q2))
 
         # set default uniform distribution with min and max of the given defect sizes
-        if self._distribution is None:
+        if not self._userDistribution:
             inputMin = self._input.getMin()
             inputMin[0] = np.min(self._defectSizes)
             inputMax = self._input.getMax()
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 453c88c..b419486 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -279,6 +279,7 @@ class KrigingBase:
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
         self._distribution = distribution
+        self._userDistribution = True
 
     def getDistribution(self):
         """
diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 72f8caf..0bff6b1 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -101,6 +101,10 @@ class PolynomialChaosPOD(POD):
         self._distribution = None
         self._adaptiveStrategy = None
         self._projectionStrategy = None
+        # the default values are rebuilt at each run with the current settings
+        self._userDistribution = False
+        self._userAdaptiveStrategy = False
+        self._userProjectionStrategy = False
         self._degree = 3
         self._defectSizes = None
         self._verbose = True
@@ -161,7 +165,7 @@ class PolynomialChaosPOD(POD):
             if self._verbose:
                 print("Polynomial chaos model completed")
             self._chaosResult = self._algoChaos.getResult()
-        elif self._distribution is None:
+        elif not self._userDistribution:
             # the distribution of the given result is the default one
             self._distribution = self._chaosResult.getDistribution()
 
@@ -506,6 +510,7 @@ class PolynomialChaosPOD(POD):
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
         self._distribution = distribution
+        self._userDistribution = True
 
     def getDistribution(self):
         """
@@ -536,6 +541,7 @@ class PolynomialChaosPOD(POD):
         except NotImplementedError:
             raise Exception("The given parameter is not an AdaptiveStrategy.")
         self._adaptiveStrategy = strategy
+        self._userAdaptiveStrategy = True
 
     def getAdaptiveStrategy(self):
         """
@@ -565,6 +571,7 @@ class PolynomialChaosPOD(POD):
         except NotImplementedError:
             raise Exception("The given parameter is not an ProjectionStrategy.")
         self._projectionStrategy = strategy
+        self._userProjectionStrategy = True
 
     def getProjectionStrategy(self):
         """
@@ -672,7 +679,7 @@ class PolynomialChaosPOD(POD):
         """
         Build the functional chaos algorithm without running it.
         """
-        if self._distribution is None:
+        if not self._userDistribution:
             # create default distribution : Uniform between min and max of the
             # input sample
             inputSample = ot.Sample(inputSample)
@@ -688,7 +695,7 @@ class PolynomialChaosPOD(POD):
         self._distribution = ot.JointDistribution(self._distribution)
         self._distribution.setDescription(inputSample.getDescription())
 
-        if self._adaptiveStrategy is None:
+        if not self._userAdaptiveStrategy:
             # Create the adaptive strategy : default is fixed strategy of degree 5
             # with linear enumerate function
             polyCol = [0.0] * self._dim
@@ -705,7 +712,7 @@ class PolynomialChaosPOD(POD):
             indexMax = enumerateFunction.getStrataCumulatedCardinal(self._degree)
             self._adaptiveStrategy = ot.FixedStrategy(multivariateBasis, indexMax)
 
-        if self._projectionStrategy is None:
+        if not self._userProjectionStrategy:
             # sparse polynomial chaos
             basis_sequence_factory = ot.LARS()
             fitting_algorithm = ot.KFold()
-- 
2.43.0


From 1c8458c61458615712c2fa95090abb270486f6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:38 +0000
Subject: [PATCH 29/30] fix: restore at each run the defect sizes removed by a
 previous run of the Sobol indices

---
 otpod/_sobol_indices.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index 7f12f6f..87122a6 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -80,6 +80,8 @@ class SobolIndices:
         self._POD = POD
         self._defectSizes = POD.getDefectSizes()
         self._defectNumber = self._defectSizes.shape[0]
+        # all the defect sizes asked, run() may only keep some of them
+        self._allDefectSizes = self._defectSizes
         self._detectionBoxCox = POD._detectionBoxCox
         self._simulationSize = 1000
 
@@ -101,6 +103,10 @@ class SobolIndices:
         Compute the Sobol indices with the chosen algorithm.
         """
 
+        # restore the defect sizes removed by a previous run
+        self._defectSizes = self._allDefectSizes
+        self._defectNumber = self._defectSizes.shape[0]
+
         # create the Function which computes the POD for a given
         # realization and for all defect sizes.
         if self._podType == "kriging":
@@ -138,7 +144,8 @@ class SobolIndices:
                 selected_marginal_index.append(index_output)
 
         if len(selected_marginal_index) != output_design.getDimension():
-            self.setDefectSizes(self._defectSizes[selected_marginal_index])
+            self._defectSizes = self._defectSizes[selected_marginal_index]
+            self._defectNumber = self._defectSizes.shape[0]
             selected_output_design = np.array(output_design)[:, selected_marginal_index]
 
             logging.warning(
@@ -390,6 +397,7 @@ class SobolIndices:
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
         self._defectSizes = size.copy()
+        self._allDefectSizes = self._defectSizes
         self._defectNumber = self._defectSizes.shape[0]
 
     def getDefectSizes(self):
-- 
2.43.0


From b769d4c8741dd87177769dc45c79ec1219a16f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:17 +0000
Subject: [PATCH 30/30] fix: keep the dependence between the other inputs in
 the Monte Carlo of the kriging PODs

---
 otpod/_kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index b419486..9b27080 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -438,7 +438,7 @@ class KrigingBase:
         # create a distibution with a dirac distribution for the defect size
         diracDist = [ot.Dirac(defect)]
         diracDist += [distribution.getMarginal(i + 1) for i in range(dim - 1)]
-        distribution = ot.JointDistribution(diracDist)
+        distribution = ot.JointDistribution(diracDist, distribution.getCopula())
 
         # create a sample for the Monte Carlo simulation and confidence interval
         MC_sample = distribution.getSample(samplingSize)
-- 
2.43.0

