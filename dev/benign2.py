"""behaviour-preserving rewrites of the drawing, sensitivity and summary code"""
from mutants import K, S, L, Q, C, H, P, M, A, SO, PL, PP, AN, SU, KP
q = "quiet"
SAVE = """        if name is not None:
            fig.savefig(name, bbox_inches="tight", transparent=True)
"""
BENIGN2 = [
    ("d-pod-defaults", [(P, """        if defectMin is None:
            defectMin = self._inputSample.getMin()[0]
        if defectMax is None:
            defectMax = self._inputSample.getMax()[0]

        fig""", """        low = self._inputSample.getMin()[0] if defectMin is None else defectMin
        high = defectMax if defectMax is not None else self._inputSample.getMax()[0]
        defectMin, defectMax = low, high

        fig""")], q),
    ("d-pod-helper", [(P, """        # POD model graph
        _ = View(
            PODmodel.draw(defectMin, defectMax, nbPt),
            axes=[ax],
            plot_kw={"color": "red", "label": "POD"},
        )

        if confidenceLevel is not None:
            # POD at confidence level graph
            _ = View(
                PODmodelCl.draw(defectMin, defectMax, nbPt),
                axes=[ax],
                plot_kw={
                    "color": "blue",
                    "label": "POD at confidence level " + str(confidenceLevel),
                },
            )
""", """        curves = [(PODmodel, "red", "POD")]
        if confidenceLevel is not None:
            curves.append((PODmodelCl, "blue", "POD at confidence level " + str(confidenceLevel)))
        for model, color, text in curves:
            View(model.draw(defectMin, defectMax, nbPt), axes=[ax], plot_kw={"color": color, "label": text})
""")], q),
    ("d-pod-curvefn", [(P, """        # POD model graph
        _ = View(
            PODmodel.draw(defectMin, defectMax, nbPt),
            axes=[ax],
            plot_kw={"color": "red", "label": "POD"},
        )
""", """        def curve(model, color, label):
            graph = model.draw(defectMin, defectMax, nbPt)
            View(graph, axes=[ax], plot_kw={"color": color, "label": label})

        curve(PODmodel, "red", "POD")
""")], q),
    ("d-pod-vlines", [(P, """            detectionSize = self.computeDetectionSize(probabilityLevel, confidenceLevel)
            ax.vlines(
                detectionSize[0],
                0.0,
                probabilityLevel,
                "red",
                "dashed",
                "a\"""", """            detectionSize = self.computeDetectionSize(
                probabilityLevel=probabilityLevel, confidenceLevel=confidenceLevel
            )
            a90 = detectionSize[0]
            ax.vlines(
                x=a90,
                ymin=0.0,
                ymax=probabilityLevel,
                colors="red",
                linestyles="dashed",
                label="a\"""")], q),
    ("d-quant-inline", [(Q, """        model = self._algoQuantReg.fit(1.0 - probabilityLevel)

        defects = self._defects
        signals = self._signals
        fittedSignals = model.fittedvalues

        fig, ax = plt.subplots(figsize=(8, 6))
        ax.plot(defects, signals, "b.", label="Data", ms=9)
        ax.plot(defects, fittedSignals, "r-", label="Linear regression model")
""", """        fig, ax = plt.subplots(figsize=(8, 6))
        fitted = self._algoQuantReg.fit(1.0 - probabilityLevel).fittedvalues
        ax.plot(self._defects, self._signals, "b.", label="Data", ms=9)
        ax.plot(self._defects, fitted, color="red", linestyle="-", label="Linear regression model")
""")], q),
    ("d-quant-save", [(Q, """        if name is not None:
            fig.savefig(name, bbox_inches="tight", transparent=True)

        return fig, ax

    def drawLinearModel""", """        self._saveFigure(fig, name)
        return fig, ax

    def _saveFigure(self, fig, name):
        if name is None:
            return
        fig.savefig(name, bbox_inches="tight", transparent=True)

    def drawLinearModel""")], q),
    ("d-an-results", [(AN, """        defects = self._algoLinear.model.exog[:, 1]
        if model == "uncensored":
            residuals = self._resultsUnc.residuals
        elif model == "censored":
            residuals = self._resultsCens.residuals
        else:
            raise NameError("model can be 'uncensored' or 'censored'.")

        fig, ax = plt.subplots(figsize=(8, 6))
        ax.grid()
        ax.plot(defects, residuals, "b.", ms=9)
        ax.hlines(0, defects.min(), defects.max(), "r", "dashed")
""", """        if model not in ("uncensored", "censored"):
            raise NameError("model can be 'uncensored' or 'censored'.")
        results = self._resultsCens if model == "censored" else self._resultsUnc
        defects = self._algoLinear.model.exog[:, 1]

        fig, ax = plt.subplots(figsize=(8, 6))
        ax.grid()
        ax.hlines(0, np.min(defects), np.max(defects), "r", "dashed")
        ax.plot(defects, results.residuals, "b.", ms=9)
""")], q),
    ("d-an-dict", [(AN, """        if model == "uncensored":
            residuals = self._resultsUnc.residuals
            distribution = self._resultsUnc.resDist
        elif model == "censored":
            residuals = self._resultsCens.residuals
            distribution = self._resultsCens.resDist
        else:
            raise NameError("model can be 'uncensored' or 'censored'.")

        fig, ax = plt.subplots(figsize=(8, 6))
        graphHist = ot.HistogramFactory().build(residuals).drawPDF()
        graphPDF = distribution.drawPDF()
""", """        if model == "uncensored":
            results = self._resultsUnc
        elif model == "censored":
            results = self._resultsCens
        else:
            raise NameError("model can be 'uncensored' or 'censored'.")
        residuals, distribution = results.residuals, results.resDist

        fig, ax = plt.subplots(figsize=(8, 6))
        graphPDF = distribution.drawPDF()
        factory = ot.HistogramFactory()
        graphHist = factory.build(residuals).drawPDF()
""")], q),
    ("d-pli-contour", [(PP, """        column = marginal if self._delta.shape[1] > 1 else 0
        extent = (
            np.min(self._defectSizes[self._keepedDefect]),
            np.max(self._defectSizes[self._keepedDefect]),
            np.min(self._delta[:, column]),
            np.max(self._delta[:, column]),
        )
""", """        column = marginal if self._delta.shape[1] > 1 else 0
        sizes = self._defectSizes[self._keepedDefect]
        deltas = self._delta[:, column]
        extent = (sizes.min(), sizes.max(), deltas.min(), deltas.max())
""")], q),
    ("d-pli-abs", [(PL, """                for i, d in enumerate(self._deltaValues[:, marginal]):
                    x_support[i] = self._computeHellinger(marginal, d)

                    # if the delta is actually lower than original, then the
                    # abcsissa value is set to the opposite
                    if d < self.getOriginalDelta(marginal):
                        x_support[i] = -x_support[i]
""", """                for i, d in enumerate(self._deltaValues[:, marginal]):
                    distance = self._computeHellinger(marginal, d)
                    below = d < self.getOriginalDelta(marginal)
                    x_support[i] = -distance if below else distance
""")], q),
    ("d-pli-label", [(PL, """            if confidenceLevel is not None:
                currentLabel = label[marginal] + " + {:.0f}% CI".format(
                    confidenceLevel * 100
                )
            else:
                currentLabel = label[marginal]
""", """            currentLabel = label[marginal]
            if confidenceLevel is not None:
                currentLabel += " + {:.0f}% CI".format(confidenceLevel * 100)
""")], q),
    ("d-pli-range", [(PL, "                for i, d in enumerate(self._deltaValues[:, marginal]):\n                    x_support", """                for i in range(self._deltaSize):
                    d = self._deltaValues[i, marginal]
                    x_support""")], q),
    ("d-kt-validation", [(K, """        y_loo = self._computeLOO(
            self._input, self._signals, self._krigingResult, self._transformation
        )
        fig, ax = self._drawValidationGraph(self._signals, y_loo)
""", """        result, transformation = self._krigingResult, self._transformation
        predicted = self._computeLOO(self._input, self._signals, result, transformation)
        fig, ax = self._drawValidationGraph(target=self._signals, prediction=predicted)
""")], q),
    ("d-sobol-view", [(SO, """        graph = self._sa.draw()
        fig, ax = plt.subplots(figsize=(8, 6))
        View(graph, axes=[ax])
        ax.set_xticks(np.array(range(self._dim)) + 1)
""", """        fig, ax = plt.subplots(figsize=(8, 6))
        graph = self._sa.draw()
        View(graph, axes=[ax])
        ax.set_xticks(np.arange(1, self._dim + 1))
""")], q),
    ("d-sobol-getter", [(SO, """            try:
                if order == "first":
                    yplot.add(self._sa.getFirstOrderIndices(i))
                elif order == "total":
                    yplot.add(self._sa.getTotalOrderIndices(i))
                xplot.add([defect])
""", """            try:
                if order == "first":
                    values = self._sa.getFirstOrderIndices(i)
                else:
                    values = self._sa.getTotalOrderIndices(i)
                yplot.add(values)
                xplot.add([defect])
""")], q),
    ("d-sobol-zip", [(SO, """        for output in range(self._dim):
            ax.plot(
                xplot,
                yplot[:, output],
                color=colors[output],
                marker="o",
                ls="",
                label=label[output],
            )
""", """        for k in range(self._dim):
            style = dict(color=colors[k], marker="o", ls="", label=label[k])
            ax.plot(xplot, yplot[:, k], **style)
""")], q),
    ("d-box-direct", [(P, """        fig, ax = plt.subplots(figsize=(8, 6))
        # get the graph from the method 'computeBoxCox'
        _ = View(self._graphBoxCox, axes=[ax])
""", """        graph = self._graphBoxCox
        fig = plt.figure(figsize=(8, 6))
        ax = fig.add_subplot(111)
        View(graph, axes=[ax])
""")], q),
]
