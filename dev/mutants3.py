"""variants of the accessors: breaking and behaviour-preserving"""
from mutants import K, S, L, Q, C, H, P, M, A, SO, PL, PP, AN, SU, KP
q = "quiet"
VERB = """        if type(verbose) is not bool:
            raise TypeError("The parameter is not a bool.")
        else:
            self._verbose = verbose
"""
MUTANTS3 = [
    ("x10-pmin-open", [(H, "if pmin < 0 or pmin > 1:", "if pmin <= 0 or pmin > 1:")], {"C10"}),
    ("x10-pmax-swap", [(H, "            self._pmax = pmax\n", "            self._pmin = pmax\n")], {"C10"}),
    ("x10-quant-closed", [(Q, "quantile.max() >= 1", "quantile.max() > 1")], {"C10"}),
    ("x10-quant-nosort", [(Q, "        quantile.sort()\n", "")], {"C10"}),
    ("x10-sizes-low", [(C, "        if size.max() > maxMax or size.min() < minMin:", "        if size.max() > maxMax:")], {"C10"}),
    ("x10-sizes-and", [(K, "        if size.max() > maxMax or size.min() < minMin:", "        if size.max() > maxMax and size.min() < minMin:")], {"C10"}),
    ("x10-sizes-before", [(H, "        if size.max() > maxMax or size.min() < minMin:", "        self._defectSizes = size.copy()\n        if size.max() > maxMax or size.min() < minMin:")], {"C10"}),
    ("x10-law-untested", [(C, """        if not isinstance(distribution, ot.JointDistribution):
            raise ValueError("The given parameter is not a JointDistribution")
        self""", """        self""")], {"C10"}),
    ("x10-basis-untested", [(K, """        try:
            ot.Basis(basis)
        except NotImplementedError:
            raise Exception("The given parameter is not a Basis.")
""", "")], {"C10"}),
    ("x10-basis-swallow", [(K, """            raise Exception("The given parameter is not a Basis.")
""", "            basis = None\n")], {"C10"}),
    ("x10-sobol-case", [(SO, '"Saltelli", "Jansen", "Martinez", "MauntzKucherenko"]:', '"Saltelli", "Jansen", "Martinez"]:')], {"C10"}),
    ("x10-sobol-dim", [(SO, "if distribution.getDimension() != self._dim:", "if distribution.getDimension() > self._dim:")], {"C10"}),
    ("x10-summary-key", [(SU, "if method not in self._activeMethods:", "if not isinstance(method, str):")], {"C10"}),
    ("x10-classifier-keep", [(H, "            if classifier == \"rf\":\n", "            if classifier == \"svc\":\n")], {"C10"}),
    ("x10-sim-sampling", [(SU, "        self._simulationSize = size\n", "        self._samplingSize = size\n")], {"C10"}),
    ("x10-default-sim", [(P, "self._simulationSize = 1000", "self._simulationSize = 100")], {"C10"}),
    ("x10-default-degree", [(C, "self._degree = 3", "self._degree = 5")], {"C10"}),
    ("x10-default-rf", [(H, "self._samplingSize = 10000", "self._samplingSize = 1000")], {"C10"}),
    ("x10-verbose-int", [(L, "if type(verbose) is not bool:", "if not isinstance(verbose, int):")], {"C10"}),
    ("x10-verbose-set", [(Q, "            self._verbose = verbose\n", "            self._verbose = True\n")], {"C10"}),
    ("x10-run-sampling", [(C, "        inputSize = self._input.getSize()\n", "        inputSize = self._input.getSize()\n        self._samplingSize = min(self._samplingSize, 5000)\n")], {"C10"}),
    ("x10-candidate-clip", [(S, "        self._candidateSize = size\n", "        self._candidateSize = max(size, 1000)\n")], {"C10"}),
    ("x10-graph-dir", [(H, "elif type(directory) is not str and directory is not None:", "elif directory is None:")], {"C10"}),
    ("x10-sobol-sizes-kept", [(SO, "        self._defectSizes = size.copy()\n", "        self._defectSizes = np.unique(size)\n")], {"C10"}),
    ("x10-chaos-strategy", [(C, "        self._projectionStrategy = strategy\n", "        self._projectionStrategy = ot.ProjectionStrategy(strategy)\n        self._adaptiveStrategy = None\n")], {"C10"}),
    ("x10-getter-samp", [(K, "        return self._samplingSize\n", "        return self._simulationSize\n")], {"C10"}),
    # preserving
    ("y10-isinstance", [(L, "if type(verbose) is not bool:", "if not isinstance(verbose, bool):")], q),
    ("y10-noelse", [(Q, VERB, """        if type(verbose) is not bool:
            raise TypeError("The parameter is not a bool.")
        self._verbose = verbose
""")], q),
    ("y10-positive", [(C, VERB, """        if type(verbose) is bool:
            self._verbose = verbose
        else:
            raise TypeError("The parameter is not a bool.")
""")], q),
    ("y10-chain", [(H, "if pmin < 0 or pmin > 1:", "if not 0 <= pmin <= 1:")], q),
    ("y10-in", [(H, "if classifier != \"rf\" and classifier != \"svc\":", "if classifier not in (\"rf\", \"svc\"):")], q),
    ("y10-sorted", [(Q, """        quantile = np.hstack(np.array(quantile))
        quantile.sort()
        if quantile.max() >= 1 or quantile.min() <= 0:""", """        quantile = np.sort(np.hstack(np.array(quantile)))
        if quantile[-1] >= 1 or quantile[0] <= 0:""")], q),
    ("y10-any", [(Q, "if quantile.max() >= 1 or quantile.min() <= 0:", "if np.any(quantile >= 1) or np.any(quantile <= 0):")], q),
    ("y10-reuse", [(C, """        if size.max() > maxMax or size.min() < minMin:
""", """        outside = size.min() < minMin or size.max() > maxMax
        if outside:
""")], q),
    ("y10-else-set", [(SO, """        if method in ["Saltelli", "Jansen", "Martinez", "MauntzKucherenko"]:
            self._method = method
        else:
            raise AttributeError(
                "The sensitivity method is not known, it "
                + 'must be "Saltelli", "Martinez", "Jansen" or "MauntzKucherenko".'
            )
""", """        known = ("Jansen", "Martinez", "MauntzKucherenko", "Saltelli")
        if method not in known:
            raise AttributeError("The sensitivity method is not known, it must be one of " + ", ".join(known))
        self._method = method
""")], q),
    ("y10-law-order", [(SO, """        if not isinstance(distribution, ot.JointDistribution):
            raise ValueError("The given parameter is not a JointDistribution")
""", """        is_joint = isinstance(distribution, ot.JointDistribution)
        if not is_joint:
            raise ValueError("The given parameter is not a JointDistribution")
""")], q),
    ("y10-try-else", [(K, """        try:
            ot.Basis(basis)
        except NotImplementedError:
            raise Exception("The given parameter is not a Basis.")
        self._basis = basis
""", """        try:
            ot.Basis(basis)
        except (NotImplementedError, TypeError):
            raise Exception("The given parameter is not a Basis.")
        else:
            self._basis = basis
""")], q),
    ("y10-keys", [(SU, "if method not in self._activeMethods:", "if method not in self._activeMethods.keys():")], q),
    ("y10-graph-split", [(H, """        elif type(directory) is not str and directory is not None:
            raise""", """        if directory is not None and not isinstance(directory, str):
            raise""")], q),
    ("y10-init-order", [(H, """        self._pmax = 0.52
        self._pmin = 0.45
""", """        self._pmin, self._pmax = 0.45, 0.52
""")], q),
    ("y10-chaos-flag-first", [(C, """        self._chaosResult = chaosResult
        self._userChaos = True
""", """        self._userChaos = True
        self._chaosResult = chaosResult
""")], q),
    ("y10-sort-inline", [(K, "        self._defectSizes = size.copy()\n        self._defectNumber = self._defectSizes.shape[0]\n", "        self._defectNumber = len(size)\n        self._defectSizes = np.array(size)\n")], q),
]
