"""behaviour-preserving rewrites: every check must stay quiet on them"""
from mutants import K, S, L, Q, C, H, P, M, A, SO, PL, PP, AN, SU, KP
q = "quiet"
BENIGN = [
    ("b-pod-run-early", [(P, """        shift = 0.0
        if boxCox:
            # optimization required, get optimal lambda without graph
""", """        shift = 0.0
        if boxCox:
""")], q),
    ("b-kriging-helper-meanpod", [(KP, """        # compute the POD model
        meanPOD = self._PODPerDefect.computeMean()
        interpModel = interp1d(self._defectSizes, np.array(meanPOD), kind="linear")
        self._PODmodel = ot.PythonFunction(1, 1, interpModel)
""", """        self._PODmodel = self._meanModel()

    def _meanModel(self):
        return ot.PythonFunction(1, 1, interp1d(self._defectSizes, np.array(self._PODPerDefect.computeMean()), kind="linear"))
""")], q),
    ("b-kriging-range-loop", [(KP, "for i, defect in enumerate(self._defectSizes):\n", "for i in range(len(self._defectSizes)):\n            defect = self._defectSizes[i]\n")], q),
    ("b-kriging-range-number", [(KP, "for i, defect in enumerate(self._defectSizes):\n", "for i in range(self._defectNumber):\n            defect = self._defectSizes[i]\n")], q),
    ("b-ktools-dirac-append", [(K, "diracDist += [distribution.getMarginal(i + 1) for i in range(dim - 1)]", "for i in range(1, dim):\n            diracDist.append(distribution.getMarginal(i))")], q),
    ("b-ktools-dist-if", [(K, """            if VAR_TCL[i] > 0:
                POD_PG_dist += [ot.Normal(POD_MCPG_a[i], np.sqrt(VAR_TCL[i]))]
            else:
                if POD_MCPG_a[i] < 1:
                    POD_PG_dist += [ot.Dirac([0.0])]
                else:
                    POD_PG_dist += [ot.Dirac([1.0])]
""", """            mu, var = POD_MCPG_a[i], VAR_TCL[i]
            if var > 0:
                law = ot.Normal(mu, np.sqrt(var))
            elif not mu < 1:
                law = ot.Dirac([1.0])
            else:
                law = ot.Dirac([0.0])
            POD_PG_dist.append(law)
""")], q),
    ("b-ktools-theta", [(K, """            distBoundCol = []
            for i in range(dim):
                distBoundCol += [ot.Uniform(lowerBound[i], upperBound[i])]
""", """            distBoundCol = [ot.Uniform(lo, up) for lo, up in zip(lowerBound, upperBound)]
""")], q),
    ("b-ktools-theta-inv", [(K, "        if size > 0:\n", "        if size <= 0:\n            fitter.setOptimizeParameters(False)\n            return fitter\n        elif size > 0:\n")], q),
    ("b-ktools-q2", [(K, "return 1 - np.mean(delta**2) / np.var(outputSample)", "mse = np.mean(np.square(delta))\n        return 1.0 - mse / np.var(outputSample)")], q),
    ("b-ktools-cl-oneline", [(K, "        interpModel = interp1d(self._defectSizes, PODQuantile, kind=\"linear\")\n        PODmodelCl = ot.PythonFunction(1, 1, interpModel)\n        return PODmodelCl", "        return ot.PythonFunction(1, 1, interp1d(self._defectSizes, PODQuantile, kind=\"linear\"))")], q),
    ("b-ktools-cds", [(K, """        if confidenceLevel is None:
            return self._computeDetectionSize(
                self.getPODModel(),
                None,
                probabilityLevel,
                confidenceLevel,
                np.min(self._defectSizes),
                np.max(self._defectSizes),
            )
        elif confidenceLevel is not None:
            return self._computeDetectionSize(
                self.getPODModel(),
                self.getPODCLModel(confidenceLevel),
                probabilityLevel,
                confidenceLevel,
                np.min(self._defectSizes),
                np.max(self._defectSizes),
            )
""", """        modelCl = None if confidenceLevel is None else self.getPODCLModel(confidenceLevel)
        low, high = np.min(self._defectSizes), np.max(self._defectSizes)
        return self._computeDetectionSize(model=self.getPODModel(), modelCl=modelCl, probabilityLevel=probabilityLevel,
                                          confidenceLevel=confidenceLevel, defectMin=low, defectMax=high)
""")], q),
    ("b-ktools-setsizes", [(K, "        size = np.hstack(np.array(size))\n        size.sort()\n", "        size = np.sort(np.hstack(np.array(size)))\n")], q),
    ("b-ktools-setsizes2", [(K, "size.max() > maxMax or size.min() < minMin", "not (size[-1] <= maxMax and size[0] >= minMin)")], q),
    ("b-filter-mask", [(M, """        inputSampleUnc = inputSample[
            np.hstack(np.logical_and(signals > noiseThres, signals < saturationThres))
        ]""", """        keep = np.hstack((signals > noiseThres) & (signals < saturationThres))
        inputSampleUnc = inputSample[keep]"""), (M, """        signalsUnc = signals[
            np.hstack(np.logical_and(signals > noiseThres, signals < saturationThres))
        ]""", "        signalsUnc = signals[keep]")], q),
    ("b-filter-inf", [(M, "noiseThres = -sys.float_info.max", "noiseThres = -np.inf")], q),
    ("b-mle-sign", [(M, "MLE += -np.sum(np.log(cdfZnoise))", "MLE -= np.log(cdfZnoise).sum()")], q),
    ("b-mle-loop", [(M, "cdfZsat = np.array([ot.DistFunc.pNormal(Zsat[i][0]) for i in range(len(Zsat))])", "cdfZsat = np.array([ot.DistFunc.pNormal(z[0]) for z in Zsat])")], q),
    ("b-r2", [(M, "R2 = 1 -", "R2 = 1.0 -")], q),
    ("b-lin-named", [(L, "            detectionBoxCox = boxCoxTransform([detection + shift])[0]", "            shifted = [shift + detection]\n            detectionBoxCox = boxCoxTransform(shifted)[0]")], q),
    ("b-lin-shift", [(L, """        if signals.getMin()[0] < 0:
            shift = -signals.getMin()[0] + 100
        else:
            shift = 0.0""", """        low = signals.getMin()[0]
        shift = 100 - low if low < 0 else 0.0""")], q),
    ("b-lin-cl-comprehension", [(L, """                samplePODDef = ot.Sample(self._simulationSize, 1)
                for i in range(self._simulationSize):
                    samplePODDef[i] = [self._PODcollDict[i](x[0])]
""", """                samplePODDef = ot.Sample([[model(x[0])] for model in self._PODcollDict])
""")], q),
    ("b-lin-coll", [(L, "        for i in range(self._simulationSize):\n            sigmaEpsilon = sampleSigmaEpsilon[i][0]", "        for i in range(0, self._simulationSize, 1):\n            sigmaEpsilon = sampleSigmaEpsilon[i, 0]")], q),
    ("b-lin-binomial", [(L, "            if NbDepDef == sizeResiduals:", "            if not NbDepDef != sizeResiduals:")], q),
    ("b-quant-x", [(Q, "        for probLevel in self._quantile:\n            model = self._buildModel(1.0 - probLevel)", "        for level in self._quantile:\n            model = self._buildModel(-level + 1)")], q),
    ("b-chaos-sum", [(C, "np.sqrt(\n            np.sum(np.array(self._residuals) ** 2) / (inputSize - basisSize - 1)\n        )", "np.sqrt(\n            (np.array(self._residuals) ** 2).sum() / (inputSize - (basisSize + 1))\n        )")], q),
    ("b-chaos-marginals", [(C, "            marginals = [\n                ot.Uniform(inputMin[i], inputMax[i]) for i in range(self._dim)\n            ]", "            marginals = []\n            for i in range(self._dim):\n                marginals.append(ot.Uniform(inputMin[i], inputMax[i]))")], q),
    ("b-chaos-merge", [(C, "samplePred[:, 0] = ot.Sample(size, [defect])", "for k in range(size):\n            samplePred[k, 0] = defect")], q),
    ("b-chaos-polycol", [(C, "polyCol = [0.0] * self._dim\n", "polyCol = [None] * self._dim\n")], q),
    ("b-hm-factory", [(H, "            probs = f_iter(doeCandidate)[:, 1]", "            both = f_iter(doeCandidate)\n            probs = both[:, 1]")], q),
    ("b-hm-where", [(H, "            ind_p1 = np.where(probs < self._pmax)[0]\n            ind_p2 = np.where(probs >= self._pmin)[0]\n            ind_p = np.intersect1d(ind_p2, ind_p1)\n", "            ind_p = np.where((probs < self._pmax) & (probs >= self._pmin))[0]\n")], q),
    ("b-hm-setp", [(H, """        if pmin < 0 or pmin > 1:
            raise ValueError("pmin must range between 0 and 1.")
        else:
            self._pmin = pmin""", """        if not 0 <= pmin <= 1:
            raise ValueError("pmin must range between 0 and 1.")
        self._pmin = pmin""")], q),
    ("b-hm-type", [(H, 'if classifier != "rf" and classifier != "svc":', 'if classifier not in ("rf", "svc"):')], q),
    ("b-hm-aug", [(H, "algo_iteration = algo_iteration + 1", "algo_iteration += 1")], q),
    ("b-as-signal", [(S, """            if self._boxCox:
                self._signals.add(
                    self._boxCoxTransform(
                        self._physicalModel(candidateOpt) + [self._shift]
                    )
                )
            else:
                self._signals.add(self._physicalModel(candidateOpt))""", """            signal = self._physicalModel(candidateOpt)
            if self._boxCox:
                signal = self._boxCoxTransform(signal + [self._shift])
            self._signals.add(signal)""")], q),
    ("b-as-while", [(S, "        while iteration < self._nIteration:\n            iteration += 1\n", "        for iteration in range(1, self._nIteration + 1):\n")], q),
    ("b-pod-cds", [(P, "if not (model([defectMin])[0] <= probabilityLevel <= model([defectMax])[0]):", "if model([defectMin])[0] > probabilityLevel or probabilityLevel > model([defectMax])[0]:")], q),
    ("b-pod-censored", [(P, """        if self._noiseThres is not None or self._saturationThres is not None:
            self._censored = True
        else:
            self._censored = False""", """        self._censored = not (self._noiseThres is None and self._saturationThres is None)""")], q),
    ("b-pod-run-dict", [(P, "        if boxCox:\n", "        if not boxCox:\n            pass\n        if boxCox:\n")], q),
]
