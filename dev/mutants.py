PROPS = "C01 C02 C03 C04 C05 C06 C07 C08 C10 C11 C12 C13 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26".split()
K, S, L, Q, C, H, P, M, A, SO, PL, PP, AN, SU = ("_kriging_tools.py", "_adaptive_signal_pod.py", "_univariate_linear_model_pod.py",
    "_quantile_regression_pod.py", "_polynomial_chaos_pod.py", "_adaptive_hitmiss_pod.py", "_pod.py", "_math_tools.py",
    "_univariate_linear_model_analysis.py", "_sobol_indices.py", "_pli.py", "_pli_pod.py", "_univariate_linear_model_analysis.py",
    "_pod_summary.py")
KP = "_kriging_pod.py"
MUTANTS = [
    ("c01-kriging-c", [(K, "1.0 - confidenceLevel", "confidenceLevel")], {"C01"}),
    ("c01-kriging-half", [(K, "1.0 - confidenceLevel", "(1.0 - confidenceLevel) / 2")], {"C01"}),
    ("c01-kriging-max", [(K, "1.0 - confidenceLevel", "max(1.0 - confidenceLevel, 0.05)")], {"C01"}),
    ("c01-chaos-default", [(C, "def getPODCLModel(self, confidenceLevel=0.95)", "def getPODCLModel(self, confidenceLevel=0.9)")], {"C01"}),
    ("c01-bin-qbeta", [(L, "sizeResiduals - NbDepDef, NbDepDef + 1, confLevel", "sizeResiduals - NbDepDef + 1, NbDepDef, confLevel")], {"C01"}),
    ("c01-bin-full", [(L, "confLevel ** (1.0 / sizeResiduals)", "(1 - confLevel) ** (1.0 / sizeResiduals)")], {"C01"}),
    ("c01-bin-cond", [(L, "if NbDepDef == sizeResiduals:", "if NbDepDef >= sizeResiduals - 1:")], {"C01"}),
    ("c01-quantreg", [(Q, "computeQuantilePerComponent(\n            confidenceLevel\n        )", "computeQuantilePerComponent(\n            1 - confidenceLevel\n        )")], {"C01"}),
    ("c01-q-local", [(K, "1.0 - confidenceLevel", "1.0 - float(confidenceLevel)")], "quiet"),
    ("c01-q-temp", [(K, "        PODQuantile = self", "        alpha = 1 - confidenceLevel\n        PODQuantile = self"), (K, "1.0 - confidenceLevel", "alpha")], "quiet"),
]
