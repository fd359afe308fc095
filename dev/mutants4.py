"""variants: reproducibility, user data, repeated runs"""
from mutants import K, S, L, Q, C, H, P, M, A, SO, PL, PP, AN, SU, KP
q = "quiet"
MUTANTS4 = [
    ("x13-svc", [(H, "                        random_state=0,\n", "")], {"C13"}),
    ("x13-rf-none", [(H, "self._ClassifierParameters = [[100], [None], [2], [0]]", "self._ClassifierParameters = [[100], [None], [2], [None]]")], {"C13"}),
    ("x13-seed", [(K, "        normalSample = ot.Normal().getSample(", "        ot.RandomGenerator.SetSeed(0)\n        normalSample = ot.Normal().getSample(")], {"C13"}),
    ("x13-normal", [(Q, "        defectsSize = self._defects.getSize()\n", "        defectsSize = self._defects.getSize()\n        np.random.shuffle(np.arange(defectsSize))\n")], {"C13"}),
    ("x13-import", [(C, "import numpy as np\n", "import numpy as np\nfrom numpy.random import permutation as perm\n"), (C, "        inputSize = self._input.getSize()\n", "        inputSize = self._input.getSize()\n        order = perm(inputSize)\n")], {"C13"}),
    ("y13-kwargs", [(H, "                        coef0=1,\n", "                        **{\"coef0\": 1}\n")], q),
    ("x12-sizes", [(K, "        size = np.hstack(np.array(size))\n        size.sort()\n", "        size = np.asarray(size)\n        size.sort()\n")], {"C12"}),
    ("x12-quant", [(Q, "        quantile = np.hstack(np.array(quantile))\n        quantile.sort()\n", "        quantile = np.ravel(quantile)\n        quantile.sort()\n")], {"C12"}),
    ("x12-law", [(C, "        self._distribution = ot.JointDistribution(self._distribution)\n", "")], {"C12"}),
    ("x12-sobol-sizes", [(SO, "        self._defectNumber = self._defectSizes.shape[0]\n        self._detection", "        self._defectSizes[0] = max(self._defectSizes[0], 0.0)\n        self._defectNumber = self._defectSizes.shape[0]\n        self._detection")], {"C12"}),
    ("x12-pod-attr", [(SO, "        self._POD = POD\n", "        self._POD = POD\n        POD._simulationSize = N\n")], {"C12"}),
    ("x12-sobol-setter", [(SO, "        self._simulationSize = size\n", "        self._simulationSize = size\n        self._POD.setSimulationSize(size)\n")], {"C12"}),
    ("x12-input-shift", [(P, "        self._inputSample = ot.Sample(np.vstack(inputSample))\n", "        inputSample = np.asarray(inputSample)\n        inputSample += 0.0\n        self._inputSample = ot.Sample(np.vstack(inputSample))\n")], {"C12"}),
    ("x12-analysis", [(L, "            self._verbose = verbose\n", "            self._verbose = verbose\n            self._signals = 1\n")], q),
    ("y12-copy", [(K, "        size = np.hstack(np.array(size))\n        size.sort()\n", "        size = np.array(size).ravel()\n        size.sort()\n")], q),
    ("y12-flatten", [(Q, "        quantile = np.hstack(np.array(quantile))\n", "        quantile = np.array(quantile).flatten()\n")], q),
]
