"""breaking variants of drawing code"""
from mutants import K, S, L, Q, C, H, P, M, A, SO, PL, PP, AN, SU, KP
MUTANTS2 = [
    ("x08-pod-min", [(P, "            defectMin = self._inputSample.getMin()[0]\n        if defectMax", "            defectMin = 0.0\n        if defectMax")], {"C08"}),
    ("x08-pod-cl", [(P, "                PODmodelCl.draw(defectMin", "                PODmodel.draw(defectMin")], {"C08"}),
    ("x08-pod-nbpt", [(P, "PODmodel.draw(defectMin, defectMax, nbPt)", "PODmodel.draw(defectMin, defectMax, 100)")], {"C08"}),
    ("x08-pod-vline", [(P, "                    detectionSize[1],\n                    0.0,", "                    detectionSize[0],\n                    0.0,")], {"C08"}),
    ("x08-pod-axes", [(P, "            axes=[ax],\n            plot_kw={\"color\": \"red\"", "            plot_kw={\"color\": \"red\"")], {"C08"}),
    ("x08-quant-level", [(Q, "model = self._algoQuantReg.fit(1.0 - probabilityLevel)", "model = self._algoQuantReg.fit(probabilityLevel)")], {"C08"}),
    ("x08-quant-nosave", [(Q, """        ax.set_title("POD - Quantile regression model")
        if name is not None:
            fig""", """        ax.set_title("POD - Quantile regression model")
        if name is not None and probabilityLevel is not None:
            fig""")], {"C08"}),
    ("x08-an-cens", [(AN, """            residuals = self._resultsCens.residuals
        else:
            raise NameError("model can be 'uncensored' or 'censored'.")

        fig, ax = plt.subplots(figsize=(8, 6))
        ax.grid()
        ax.plot""", """            residuals = self._resultsUnc.residuals
        else:
            raise NameError("model can be 'uncensored' or 'censored'.")

        fig, ax = plt.subplots(figsize=(8, 6))
        ax.grid()
        ax.plot""")], {"C08"}),
    ("x08-an-qq", [(AN, "ot.VisualTest.DrawQQplot(residuals, distribution)", "ot.VisualTest.DrawQQplot(residuals, self._resultsUnc.resDist)")], {"C08"}),
    ("x08-an-hist", [(AN, "graphPDF = distribution.drawPDF()", "graphPDF = ot.NormalFactory().build(residuals).drawPDF()")], {"C08"}),
    ("x08-kt-target", [(K, "self._drawValidationGraph(self._signals, y_loo)", "self._drawValidationGraph(y_loo, self._signals)")], {"C08"}),
    ("x08-pli-sign", [(PL, "if d < self.getOriginalDelta(marginal):\n                        x_support", "if d <= self.getOriginalDelta(marginal):\n                        x_support")], {"C08"}),
    ("x08-pli-ci", [(PL, "                    ci[marginal][:, 1],", "                    ci[marginal][:, 0],")], {"C08"}),
    ("x08-pli-orig", [(PL, "column = marginal if self._originalDelta.shape[1] > 1 else 0", "column = 0")], {"C08"}),
    ("x08-pp-level", [(PP, "                confidenceLevel=confidenceLevel,\n                label=label,", "                label=label,")], {"C08"}),
    ("x08-pp-defect", [(PP, "fig, ax = self._pli[idefect].drawIndices", "fig, ax = self._pli[self._keepedDefect[0]].drawIndices")], {"C08"}),
    ("x08-pp-extent", [(PP, "            np.max(self._defectSizes[self._keepedDefect]),", "            np.max(self._defectSizes),")], {"C08"}),
    ("x08-sobol-x", [(SO, "                xplot.add([defect])\n", "").__class__((SO, "            try:\n                if order == \"first\":\n                    yplot", "            xplot.add([defect])\n            try:\n                if order == \"first\":\n                    yplot")), (SO, "                xplot.add([defect])\n            except", "            except")], {"C08"}),
    ("x08-sobol-order", [(SO, "yplot.add(self._sa.getTotalOrderIndices(i))", "yplot.add(self._sa.getFirstOrderIndices(i))")], {"C08"}),
    ("x08-sobol-save", [(SO, """        ax.legend(loc="lower left")
        if name is not None:
            fig.savefig(name, bbox_inches="tight", transparent=True)
""", """        if name is not None:
            fig.savefig(name, bbox_inches="tight", transparent=True)
        ax.legend(loc="lower left")
""")], {"C08"}),
    ("x08-box-name", [(P, """        ax.set_title("Loglikelihood versus Box Cox parameter")

        if name is not None:
            fig.savefig(name,""", """        ax.set_title("Loglikelihood versus Box Cox parameter")

        if name is not None:
            fig.savefig(str(name) + ".png",""")], {"C08"}),
]
