"""variants: verbosity and graphs"""
from mutants import K, S, L, Q, C, H, P, M, A, SO, PL, PP, AN, SU, KP
q = "quiet"
f17 = {"C17"}
MUTANTS6 = [
    ("x17-print", [(S, "            if self._verbose:\n                print(\"Criterion value", "            if True:\n                print(\"Criterion value")], f17),
    ("x17-q2", [(S, "                self._input, self._signals, self._krigingResult, transformation\n            )\n            if self._verbose:\n", "                self._input, self._signals, self._krigingResult, transformation\n            ) if self._verbose else self._Q2\n            if self._verbose:\n")], f17),
    ("x17-level", [(S, "fig, ax = self.drawPOD(probabilityLevel, self._confidenceLevel)", "fig, ax = self.drawPOD(probabilityLevel, self._probabilityLevel)")], f17),
    ("x17-name", [(H, "                        + str(algo_iteration),\n", "                        + str(self._defectNumber),\n")], f17),
    ("x17-show", [(H, "            if self._graph:\n", "            if self._graph or self._verbose:\n")], f17),
    ("x17-abort", [(S, "                    except Exception:\n                        # the", "                    except ValueError:\n                        # the")], f17),
    ("x17-clobber", [(S, "                fig, ax = self.drawPOD(probabilityLevel", "                self._signals = self._input\n                fig, ax = self.drawPOD(probabilityLevel")], f17),
    ("x17-dir", [(S, "if self._graphDirectory is not None:\n                    if not os.path.exists(self._graphDirectory):\n                        os.makedirs(self._graphDirectory)\n", "if self._graphDirectory is None:\n                    self._graphDirectory = os.getcwd()\n                if self._graphDirectory is not None:\n                    if not os.path.exists(self._graphDirectory):\n                        os.makedirs(self._graphDirectory)\n")], f17),
    ("y17-helper", [(S, "            if self._verbose:\n                print(\"Criterion value", "            talk = self._verbose\n            if talk:\n                print(\"Criterion value")], q),
    ("y17-else", [(S, "                if self._graphDirectory is not None:\n                    if not os.path.exists(self._graphDirectory):\n                        os.makedirs(self._graphDirectory)\n", "                folder = self._graphDirectory\n                if folder is not None:\n                    os.makedirs(folder, exist_ok=True)\n")], q),
    ("y17-fmt", [(S, "                        os.path.join(self._graphDirectory, \"AdaptiveSignalPOD_\")\n                        + str(iteration),", "                        os.path.join(\n                            self._graphDirectory, \"AdaptiveSignalPOD_{}\".format(iteration)\n                        ),")], q),
    ("y17-early", [(S, "            if self._graph:\n                # create", "            if not self._graph:\n                continue\n            if self._graph:\n                # create")], q),
    ("x07-label", [(P, "description = [\"a\" + \"{:g}\".format(100 * probabilityLevel)]", "description = [\"a\" + str(int(100 * probabilityLevel))]")], {"C07"}),
    ("x07-label2", [(P, "                + \"/\"\n                + \"{:g}\".format(100 * confidenceLevel)\n", "                + \"/\"\n                + \"{:g}\".format(100 * probabilityLevel)\n")], {"C07"}),
    ("y07-label", [(P, "description = [\"a\" + \"{:g}\".format(100 * probabilityLevel)]", "description = [\"a%d\" % int(round(100 * probabilityLevel))]")], q),
    ("y07-label2", [(P, "description = [\"a\" + \"{:g}\".format(100 * probabilityLevel)]", "description = [f\"a{100 * probabilityLevel:g}\"]")], q),
]
f11 = {"C11"}
MUTANTS6 += [
    ("x11-noattr", [(Q, "        self._quantile = ", "        self._quantil = ")], f11),
    ("x11-verbose-local", [(S, "            if self._verbose:\n                print(\"Criterion value", "            if self._verbose:\n                bestPoint = candidateOpt\n            self._added = bestPoint\n            if self._verbose:\n                print(\"Criterion value")], f11),
    ("x11-import", [(C, "import logging\n", "")], f11),
    ("x11-arity", [(P, "            detectionSize = self.computeDetectionSize(probabilityLevel, confidenceLevel)\n", "            detectionSize = self.computeDetectionSize(probabilityLevel, confidenceLevel, defectMin)\n")], f11),
]

f25 = {"C25"}
MUTANTS6 += [
    ("x25-boxcox", [(AN, "        self._userLambdaBoxCox = self._lambdaBoxCox\n", "        self._userLambdaBoxCox = self._lambdaBoxCox\n        self._again = None\n"),
                    (L, "        self._lambdaBoxCox = results[\"lambdaBoxCox\"]\n", "        self._lambdaBoxCox = results[\"lambdaBoxCox\"]\n        self._detection = results[\"detection\"]\n")], f25),
    ("x25-degree", [(C, "        if not self._userAdaptiveStrategy:\n            # Create", "        if self._adaptiveStrategy is None:\n            # Create")], f25),
    ("x25-kriging-cache", [(KP, "        if not self._userKriging:\n", "        if not self._userKriging and self._krigingResult is None:\n")], f25),
    ("x25-sizes", [(SO, "        self._defectSizes = self._allDefectSizes\n        self._defectNumber = self._defectSizes.shape[0]\n\n", "")], f25),
    ("x25-quant-cache", [(Q, "    def run(self):\n", "    def run(self):\n        if getattr(self, \"_PODmodel\", None) is not None:\n            return\n")], f25),
    ("y25-local", [(C, "        if not self._userProjectionStrategy:\n", "        given = self._userProjectionStrategy\n        if not given:\n")], q),
    ("y25-reset", [(C, "        if not self._userDistribution:\n            # create", "        if not self._userDistribution:\n            self._distribution = None\n        if self._distribution is None:\n            # create")], q),
]
MUTANTS6 += [
    ("x06-copula", [(K, "ot.JointDistribution(diracDist, distribution.getCopula())", "ot.JointDistribution(diracDist)")], {"C06"}),
]
f24 = {"C24"}
MUTANTS6 += [
    ("x24-signals", [(KP, "                self._input, self._signals\n            )\n            # optimize", "                self._input, self._outputSample\n            )\n            # optimize")], f24 | {"C02", "C04"}),
    ("x24-trend", [(K, "functions.append(ot.SymbolicFunction(input, [input[0]]))", "functions.append(ot.SymbolicFunction(input, [input[-1]]))")], f24),
    ("x24-std", [(K, "1.0 / stddev[j] if", "1.0 / stddev[0] if")], f24),
    ("x24-degree", [(C, "getStrataCumulatedCardinal(self._degree)", "getStrataCumulatedCardinal(3)")], f24),
    ("x24-marginal", [(C, "self._distribution.getMarginal(i)\n                )\n\n            enum", "self._distribution.getMarginal(0)\n                )\n\n            enum")], f24),
    ("x24-starts", [(KP, "fitter, lowerBound, upperBound, self._initialStartSize", "fitter, lowerBound, upperBound, 100")], f24),
    ("x24-usercov", [(K, "if self._covarianceModel is None:\n            # aniso", "if self._covarianceModel is None or self._basis is None:\n            # aniso")], q),
    ("x24-proj", [(C, "if not self._userProjectionStrategy:\n            # sparse", "if not self._userProjectionStrategy or not self._userAdaptiveStrategy:\n            # sparse")], f24),
    ("y24-std", [(K, "        for j in range(self._dim):\n            linear[j, j] = 1.0 / stddev[j] if abs(stddev[j]) > 1e-12 else 1.0\n", "        for j, s in enumerate(stddev):\n            scale = 1.0\n            if abs(s) > 1e-12:\n                scale = 1.0 / s\n            linear[j, j] = scale\n")], q),
    ("y24-basis", [(K, "            functions = []\n            # constant\n            functions.append(ot.SymbolicFunction(input, [\"1\"]))\n            # linear for the first parameter only\n            functions.append(ot.SymbolicFunction(input, [input[0]]))\n            self._basis = ot.Basis(functions)", "            self._basis = ot.Basis(\n                [ot.SymbolicFunction(input, [f]) for f in (\"1\", input[0])]\n            )")], q),
    ("y24-poly", [(C, "            polyCol = [0.0] * self._dim\n            for i in range(self._dim):\n                polyCol[i] = ot.StandardDistributionPolynomialFactory(\n                    self._distribution.getMarginal(i)\n                )\n", "            law = self._distribution\n            polyCol = [\n                ot.StandardDistributionPolynomialFactory(law.getMarginal(k))\n                for k in range(self._dim)\n            ]\n")], q),
]
