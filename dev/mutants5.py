"""variants: the summary"""
from mutants import K, S, L, Q, C, H, P, M, A, SO, PL, PP, AN, SU, KP
q = "quiet"
f15 = {"C15"}
MUTANTS5 = [
    ("x15-swap-thres", [(SU, "                self._detection,\n                self._noiseThres,\n                self._saturationThres,\n                ot.KernelSmoothing(),", "                self._detection,\n                self._saturationThres,\n                self._noiseThres,\n                ot.KernelSmoothing(),")], f15),
    ("x15-nobox-qr", [(SU, "                self._saturationThres,\n                self._boxCox,\n            )\n            self._PODqr", "                self._saturationThres,\n            )\n            self._PODqr")], f15),
    ("x15-chaos-size", [(SU, "            self._PODchaos.setSimulationSize(self._simulationSize)\n", "")], f15),
    ("x15-kriging-size", [(SU, "self._PODkriging.setSamplingSize(self._samplingSize)", "self._PODkriging.setSamplingSize(self._simulationSize)")], f15),
    ("x15-kriging-1d", [(SU, "        if self._dim > 1 and self._activeMethods[\"Kriging\"]:\n            if self._verbose", "        if self._activeMethods[\"Kriging\"]:\n            if self._verbose")], f15),
    ("x15-bin-factory", [(SU, "                None,\n                self._boxCox,", "                ot.NormalFactory(),\n                self._boxCox,")], f15),
    ("x15-active-key", [(SU, "if self._activeMethods[\"LinearKernelSmoothing\"]:\n            if self._verbose", "if self._activeMethods[\"LinearGauss\"]:\n            if self._verbose")], f15),
    ("x15-acc", [(SU, "                return self._PODks", "                return self._PODgauss")], f15),
    ("x15-levels", [(SU, "detectSize = self._PODqr.computeDetectionSize(\n                    probabilityLevel, confidenceLevel", "detectSize = self._PODqr.computeDetectionSize(\n                    probabilityLevel")], f15),
    ("x15-report-ks", [(SU, "detectSize = self._PODks.comp", "detectSize = self._PODbin.comp")], f15),
    ("x15-cen", [(SU, "self._analysis.getR2()[1]", "self._analysis.getR2()[0]")], f15),
    ("x15-q2", [(SU, "                round(self._PODchaos.getR2(), n_digits),\n                round(self._PODchaos.getQ2(), n_digits),", "                round(self._PODchaos.getQ2(), n_digits),\n                round(self._PODchaos.getR2(), n_digits),")], f15),
    ("x15-except", [(SU, "            except Exception:\n                detectSize = [-1, -1]\n                logging.warning(\"Detection size for kriging", "            except ValueError:\n                detectSize = [-1, -1]\n                logging.warning(\"Detection size for kriging")], f15),
    ("x15-stale", [(SU, "            except Exception:\n                detectSize = [-1, -1]\n                logging.warning(\"Detection size for kriging", "            except Exception:\n                logging.warning(\"Detection size for kriging")], f15),
    ("x15-file", [(SU, "\"Residuals_censored.\"", "\"Residuals.\"")], f15),
    ("x15-ext", [(SU, "os.path.join(directory, \"POD_Kriging.\") + extension", "os.path.join(directory, \"POD_Kriging.\") + \"png\"")], f15),
    ("x15-ret", [(SU, "name=os.path.join(directory, \"Validation_graph_Kriging.\") + extension\n            )\n            fig.append(f)", "name=os.path.join(directory, \"Validation_graph_Kriging.\") + extension\n            )")], f15),
    ("x15-try", [(SU, "            except Exception:\n                logging.warning(\n                    \"POD for polynomial chaos", "            except TypeError:\n                logging.warning(\n                    \"POD for polynomial chaos")], f15),
    ("x15-model", [(SU, "            f, ax = self._analysis.drawResidualsQQplot(\n                model=\"censored\"", "            f, ax = self._analysis.drawResidualsQQplot(\n                model=\"uncensored\"")], f15),
    ("x15-csv", [(SU, "for line in self._analysis._dataResiduals]", "for line in self._analysis._dataRegression]")], f15),
    ("x15-noprint", [(SU, "        print(self._analysis.getResults())\n", "        self._analysis.getResults()\n")], f15),
    ("x15-dim2", [(SU, "        if self._dim > 1 and self._activeMethods[\"Kriging\"]:\n            # validation", "        if self._dim > 2 and self._activeMethods[\"Kriging\"]:\n            # validation")], f15),
    ("y15-helper", [(SU, "        # run the kriging\n", "        self._more()\n\n    def _more(self):\n        # run the kriging\n")], q),
    ("y15-order", [(SU, "            self._PODchaos.setSimulationSize(self._simulationSize)\n            self._PODchaos.setSamplingSize(self._samplingSize)\n", "            self._PODchaos.setSamplingSize(self._samplingSize)\n            self._PODchaos.setSimulationSize(self._simulationSize)\n")], q),
    ("y15-kw", [(SU, "                self._saturationThres,\n                self._boxCox,\n            )\n            self._PODqr", "                saturationThres=self._saturationThres,\n                boxCox=self._boxCox,\n            )\n            self._PODqr")], q),
    ("y15-loc", [(SU, "            self._PODgauss = UnivariateLinearModelPOD(", "            model = UnivariateLinearModelPOD("), (SU, "            self._PODgauss.setVerbose", "            self._PODgauss = model\n            model.setVerbose"), (SU, "            self._PODgauss.run()", "            model.run()")], q),
    ("y15-size", [(SU, "    def _buildPrintResults(self", "    def _size(self, pod, p, c, msg):\n        try:\n            return pod.computeDetectionSize(p, c)\n        except Exception:\n            logging.warning(msg)\n            return [-1, -1]\n\n    def _buildPrintResults(self"),
                  (SU, "            try:\n                detectSize = self._PODkriging.computeDetectionSize(\n                    probabilityLevel, confidenceLevel\n                )\n            except Exception:\n                detectSize = [-1, -1]\n                logging.warning(\"Detection size for kriging cannot be computed.\")\n", "            detectSize = self._size(self._PODkriging, probabilityLevel, confidenceLevel, \"no\")\n")], q),
    ("y15-fstr", [(SU, "        validationResult = \"\\n\".join(\n            [\"{}\\t{}\\t{}\\t{}\".format(*line) for line in self._dataValidation]\n        )", "        validationResult = \"\\n\".join(\n            \"\\t\".join(str(x) for x in line) for line in self._dataValidation\n        )")], q),
    ("y15-path", [(SU, "os.path.join(directory, \"POD_Kriging.\") + extension", "os.path.join(directory, \"POD_Kriging.\" + extension)")], q),
    ("y15-figs", [(SU, "                name=os.path.join(directory, \"Validation_graph_Kriging.\") + extension\n            )\n            fig.append(f)", "                name=os.path.join(directory, \"Validation_graph_Kriging.\") + extension\n            )\n            fig = fig + [f]")], q),
    ("y15-get", [(SU, "        if self._activeMethods[\"QuantileRegression\"]:\n            # validation", "        active = self.getMethodActive()\n        if active[\"QuantileRegression\"]:\n            # validation")], q),
    ("y15-loop", [(SU, "                self._dataPOD.append(\n                    [\n                        \"Kernel smoothing on residuals :\",\n                        round(detectSize[0], n_digits),\n                        round(detectSize[1], n_digits),\n                    ]\n                )", "                self._dataPOD.append(\n                    [\"Kernel smoothing on residuals :\"] + [round(d, n_digits) for d in detectSize]\n                )")], q),
]
