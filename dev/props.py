#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (development aid; the outputs are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "otpod/"
POD, KT, KP, AS, HM, LM, QR, PC, MT, AN, SU, SO, PL, PP = (P + x for x in (
    "_pod.py", "_kriging_tools.py", "_kriging_pod.py", "_adaptive_signal_pod.py", "_adaptive_hitmiss_pod.py",
    "_univariate_linear_model_pod.py", "_quantile_regression_pod.py", "_polynomial_chaos_pod.py", "_math_tools.py",
    "_univariate_linear_model_analysis.py", "_pod_summary.py", "_sobol_indices.py", "_pli.py", "_pli_pod.py"))
PODS = [LM, QR, PC, KP, KT, AS, HM]
VF = "abstract interpretation of the source into gated value terms (value-flow), normal forms compared with prescribed formulas"
EF = "abstract interpretation of the source: effect and path analysis over all paths of every public entry point"
TRUST = ("Decided on every path, for symbolic data and settings, in each listed configuration of thresholds, Box-Cox request and settings. "
         "Trusted: the libraries (openturns, numpy, scipy, statsmodels, sklearn) compute what their names say; the analyser's model of "
         "Python. What the analyser cannot decide it reports as undecided, never as a violation. ")


def p(pid, title, statement, over, text, why, files, mech, technique=VF, note=""):
    return dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note)


PROPS = [
    p("C01", "Confidence curves are lower bounds at the asked level",
      "For every model, the curve returned for confidence level c is, at each defect size, the (1-c) quantile of the simulated POD values of the "
      "main curve's model (for the binomial model the exact lower bound, for quantile regression the curve through the c quantiles of the "
      "simulated defect sizes). Without an argument c is 0.95.",
      ["inputs", "configurations"], "all data, settings and confidence levels, all six POD classes and their variants",
      "Tests compare a few numbers at c = 0.95 on one data set each; a swapped tail, a two-sided level or a bound mishandling all-detected "
      "residuals shows at other levels or data only.", PODS, [("getPODCLModel", KT), ("_PODbinomialModelCl", LM)]),
    p("C02", "One Box-Cox transformation for signals and thresholds",
      "When the Box-Cox transformation is asked for, the signals, the detection threshold, the noise and saturation thresholds and the signals "
      "of added points are all transformed with the same shift and parameter, estimated from the kept signals of the user's data. The reported "
      "parameter is that one.",
      ["inputs", "configurations"], "all samples (negative signals included), thresholds and POD classes with boxCox=True",
      "The tests use positive signals (shift 0) and few threshold combinations, so a forgotten shift or a threshold left untransformed passes.",
      [POD, MT, LM, QR, AS], [("_run", POD), ("_computeLinearModel", LM)]),
    p("C03", "A Box-Cox parameter given by the user is used",
      "When the user gives a number as Box-Cox parameter, every transformation (fit, thresholds, bootstrap replicas, added points) uses exactly "
      "that number and the parameter reported is that number; nothing is re-estimated, neither by a model built from an analysis.",
      ["inputs", "configurations"], "all values of the parameter, all data, all POD classes and the linear analysis",
      "Tests mostly pass boxCox=True; with a given number they only look at whether it runs.",
      [POD, LM, QR, AN], [("_userLambdaBoxCox", POD), ("_bootstrapLambda", LM)]),
    p("C04", "Censoring thresholds partition the data and keep pairs together",
      "With a noise or saturation threshold, an observation is kept if and only if its signal is strictly between the thresholds; those at or "
      "below the noise and at or above the saturation are counted as censored on their side. Every kept signal stays with its own inputs and "
      "every model is fitted on the kept observations only.",
      ["inputs", "configurations"], "all samples, thresholds given alone or together, signals equal to a threshold included",
      "Test data never has a signal equal to a threshold, and a mismatch of inputs and signals only shifts numbers slightly.",
      [MT, POD, LM], [("filterCensoredData", MT)]),
    p("C05", "The POD is the probability that the signal exceeds the detection threshold",
      "The POD curve at a defect size is the probability, under the fitted model, that the signal of such a defect is above the detection "
      "threshold: exact for the linear models, through the conditional quantiles for quantile regression, by Monte Carlo over the other inputs "
      "and the model error for chaos, kriging and classifiers. The curve is the mean of the simulated values over the chosen defect sizes.",
      ["inputs", "configurations"], "all data, residual laws, thresholds, defect sizes and simulation settings",
      "Tests compare stored numbers on one data set per class within tolerances, for default sizes.",
      PODS, [("run", KP), ("run", LM), ("_computePOD", PC)]),
    p("C06", "The first input is the defect; Monte Carlo fixes only it",
      "Defect sizes range over the first input of the kept data, or are the given ones in increasing order; the other inputs follow the given "
      "distribution, by default uniform over the range of the kept data. The POD at a size is estimated with the first input fixed at that "
      "size and the other inputs drawn from their joint distribution, with the dependence it has.",
      ["inputs", "configurations"], "all input dimensions, distributions, defect sizes, sampling sizes",
      "One four-dimensional data set with uniform inputs is used everywhere: permuting inputs or fixing the wrong one is often masked.",
      [KT, KP, PC, AS, HM], [("_computePODSamplePerDefect", KT), ("_mergeDefectInX", HM)]),
    p("C07", "Detection sizes invert the returned curves",
      "computeDetectionSize(p, c) returns the size at which the POD curve equals p and, when c is given, also the size at which the confidence "
      "curve for c equals p, each searched within the range of the curve. If a curve does not reach p within that range it raises instead. "
      "Each size is labelled with the level p, in full and not truncated, and the second with c too.",
      ["inputs", "configurations"], "all probability and confidence levels, all classes and settings",
      "Tests call it for p = 0.9 and c = 0.95 only.", [POD, QR, KT], [("_computeDetectionSize", POD)]),
    p("C16", "Bootstrap resamples whole observations and refits the same model",
      "Where confidence curves come from resampling (linear model with a residual distribution, quantile regression), each replica draws whole "
      "observations with replacement and repeats the full fit with the same thresholds, Box-Cox request and detection threshold. Computing a "
      "confidence curve leaves the POD curve, the Box-Cox parameter and the quality coefficient of the model unchanged.",
      ["histories", "inputs"], "all data and simulation sizes; getters before and after any confidence computation",
      "No test reads the model again after asking for a confidence curve; resampling errors change numbers within tolerance.",
      [LM, QR], [("_PODbootstrapModelCl", LM), ("getPODCLModel", QR)]),
    p("C18", "Adaptive sampling adds the announced points with their own signals",
      "An adaptive run ends with exactly the announced number of added observations: each one a candidate point selected by the documented "
      "criterion, followed by the physical model's answer at that very point (transformed like the data). Reported metamodel, classifier, "
      "quality coefficient and confusion matrix are those of the final data and of every iteration's own classifier.",
      ["histories", "inputs"], "all physical models, data and settings; 0, 1, 2 added points (kriging) and 1, 2, 3 improvement rounds (classifier)",
      "Tests add few points with one model and look at the final curve only.",
      [AS, HM], [("run", AS), ("run", HM)],
      note="Improvement loops are unrolled: 0, 1, 2 added points for kriging; 0, 1, 6, 11 announced points for the classifier."),
    p("C19", "The linear analysis reports least-squares and censored fits under their names",
      "The intercept, slope, standard error, residuals and residual distribution reported are those of the least-squares fit of the kept "
      "(transformed) data, followed for censored data by those of the maximum-likelihood fit, each named after its case. The samples and "
      "thresholds returned are those given.",
      ["inputs", "configurations"], "all data, thresholds, residual laws and Box-Cox requests",
      "Tests compare numbers for one data set; swapping the two cases in one accessor or using the wrong residuals for the law can pass.",
      [AN], [("_run", AN), ("getResiduals", AN)]),
    p("C22", "Quality coefficients are those of their definition",
      "R2 is one minus the residual variance over the signal variance on the data the model was fitted on, and Q2 one minus the mean squared "
      "leave-one-out error over the signal variance, with the leave-one-out errors of the very model returned. For quantile regression it is the "
      "pseudo R2 at the asked quantile.",
      ["inputs", "configurations"], "all data, trends, covariance models, chaos bases, censored or transformed",
      "Tests compare stored values for one default configuration per class.",
      [MT, KT, PC, QR, AN], [("computeR2", MT), ("_computeLOO", KT), ("getQ2", PC)]),
    p("C23", "Censored data are fitted by maximum likelihood of all observations",
      "With a threshold, the linear model's coefficients maximise the likelihood in which kept signals count by their density, observations below "
      "the noise by the probability of lying below it and those above the saturation by the probability of lying above it, all in the "
      "transformed scale. The search starts at the least-squares coefficients whenever their likelihood is finite.",
      ["inputs"], "all data and thresholds, one or both given, with and without Box-Cox",
      "One data set with both thresholds is tested; an error in one censored term moves numbers slightly.",
      [MT, LM, AN], [("MLE", MT), ("computeLinearParametersCensored", MT)]),
    p("C26", "P-values are those of the named tests on the named residuals",
      "Each p-value reported by the linear analysis is that of the test it is named after, computed on the residuals (and defects, fitted "
      "distribution) of the named case.",
      ["inputs", "configurations"], "all data, thresholds, Box-Cox requests and residual laws",
      "Stored p-values of one data set are compared at two digits.",
      [MT, AN], [("_computeTests", AN), ("computeBreuschPaganTest", MT)]),
    p("C20", "Perturbed-law indices are those of the perturbed probability of detection",
      "For every input and perturbation, the perturbed probability is the average over the whole simulation of the likelihood ratio of the points "
      "for which the event is realised (equality included exactly when the event includes it), where only that input's marginal is replaced by the "
      "law of asked mean or variance closest to it (normal or uniform marginals, scaled or absolute perturbations). The index is the difference with "
      "the simulated probability relative to the smaller of the two, and its interval comes from the normal law of the delta method. PLIMean and "
      "PLIVariance apply this at each defect size to the event 'the POD's metamodel exceeds the detection threshold' over the law of the other "
      "inputs, store it as [perturbation, input, defect size], not a number where the probability is below 0.001 or above 0.999, and getIndices "
      "selects along the asked axes.",
      ["inputs", "configurations"], "all simulations, laws, perturbations, PODs of the three metamodel classes and settings",
      "No test runs these classes beyond an example notebook.",
      [PL, PP], [("run", PL), ("_perturbedMarginalPDF", PL), ("run", PP)]),
    p("C21", "Sobol indices are those of the probability of detection given the other inputs",
      "SobolIndices returns the estimator that was asked for (Saltelli, Martinez, Jansen, Mauntz-Kucherenko), computed on a Sobol design of the "
      "inputs other than the defect, drawn from the given law or else from the marginals of the POD, and on the probability of detection "
      "given these inputs at every defect size: for kriging, from the conditional mean and variance at the normalised point; for polynomial "
      "chaos, from simulated coefficients and a common residual noise; compared with the POD's detection threshold. Sizes at which the "
      "probability does not vary are left out.",
      ["inputs", "configurations"], "all PODs of the three metamodel classes, estimators, sizes, laws and sampling sizes",
      "Indices are random estimates; one data set is compared loosely.",
      [SO], [("run", SO), ("PODaggrKriging", SO), ("PODaggrChaos", SO)]),
    p("C10", "Settings are validated, stored, kept and independent",
      "For every public set/get pair of the POD classes, PODSummary, SobolIndices, PLIMean and PLIVariance: after an accepted setX(v), getX() is v "
      "(defect sizes and quantiles: v flattened and sorted; the integration algorithm: a copy) and stays so when other settings are given and, "
      "for the POD classes, after run(). setX(v) raises exactly when v is not admissible: defect sizes outside the range of the kept defects, "
      "quantiles outside ]0, 1[, pmin or pmax outside [0, 1], flags that are not bool, a directory that is not a string, an unknown classifier, "
      "sensitivity method or summary method, a distribution that is not a JointDistribution (of the right dimension for the sensitivity classes), an "
      "object openturns cannot take for the required type. A rejected value leaves every setting as it was. Choosing a classifier type also "
      "installs its default parameters. A new object has the documented defaults (1000 simulations; 5000 or 10000 samples; degree 3; 100 starts; "
      "21 quantiles from 0.05 to 0.98; random forest; Saltelli; all methods active; verbose, no graph).",
      ["inputs", "configurations", "histories"], "all values given to every setter, from a new object and after any other setting",
      "Tests set a few admissible values and check a few rejections; boundary values, half-applied rejected settings and one setting "
      "overwriting another go unnoticed.",
      PODS + [POD, SU, SO, PP], [("setDefectSizes", KT), ("setQuantile", QR), ("setClassifierType", HM), ("setMethodActive", SU)]),
    p("C13", "Results are reproducible from the openturns seed",
      "Every random draw of the package comes from openturns' generator, or from an external estimator that is given a fixed random state (the "
      "default classifiers included), and the package never sets the seed or state of openturns' generator: run twice on the same data and settings "
      "from the same generator state, an analysis gives the same results. No result depends on a clock, a process number or an address.",
      ["inputs", "configurations", "histories"], "all classes, data and settings; every function of the package",
      "A test that runs once, or compares loosely, cannot see an unseeded draw.",
      PODS + [AN, SU, SO, PL, PP], [("run", HM), ("_run", AN)], technique=EF),
    p("C12", "What the user gives is never modified",
      "No public operation writes into an object the user gave: the samples and thresholds of a constructor, the values given to setters, the "
      "arguments of methods and of the exported functions, also when the operation works on an array that may share their memory. Building and "
      "running SobolIndices, PLIMean or PLIVariance leaves every attribute of the POD they are given (its settings, sizes and results) as it was, "
      "and building and running a linear POD leaves its analysis as it was.",
      ["inputs", "configurations", "histories"], "all data and settings, in whatever container they are given; all public classes and functions",
      "Tests do not compare their arguments with copies made before the call.",
      PODS + [POD, MT, AN, SU, SO, PL, PP], [("__init__", POD), ("setDefectSizes", KT), ("__init__", SO), ("__init__", PP)], technique=EF),
    p("C15", "The summary is the results of its active methods",
      "PODSummary.run() runs the linear analysis and exactly the active methods (kriging only with several inputs), each on the data, detection, "
      "thresholds and Box-Cox request of the summary (the linear and quantile methods on the first input), with normal, no or kernel-smoothed "
      "residuals, and with its verbosity and simulation and sampling sizes: the object an accessor returns has the curves and detection sizes of "
      "that class used directly; an accessor of a method that is not active or not run raises. getResults and saveResults report, for each "
      "active method and no other, its R2 or Q2 and its detection sizes at the probability and confidence levels asked, under its name, after "
      "the tables of the linear analysis; a method that has no size or POD graph at these levels does not prevent the others. drawGraphs draws every graph "
      "of the analysis and of each active method for the levels asked, saves each under its own name in the given directory with the given "
      "extension and returns all figures.",
      ["inputs", "configurations"], "all data, thresholds, Box-Cox requests, settings, sets of active methods and levels",
      "One data set with most methods active is run; which object a reported number comes from is not looked at.",
      [SU], [("run", SU), ("_buildPrintResults", SU), ("saveResults", SU), ("drawGraphs", SU)]),
    p("C11", "An object that was run answers, whatever its settings",
      "Building and running any object (the POD classes, the analysis, the summary, Sobol indices, PLI), with any configuration of thresholds, "
      "Box-Cox request, residual factory, analysis, kriging or chaos result given and settings, never reads an attribute, variable or name that "
      "is not set on every path leading there and never calls a function of the package with arguments it does not have; nor does any public method called on the "
      "object afterwards. Every public method then returns on some path (the Box-Cox graph only if the transformation is enabled).",
      ["inputs", "configurations", "histories"], "all public methods after all configurations and settings, all paths",
      "Which attributes exist depends on the settings and on the path run() took; tests run few of the combinations and not every accessor after each.",
      PODS + [AN, SU, SO, PL, PP], [("run", f) for f in (LM, QR, PC, KP, AS, HM, SU, SO, PP)], technique=EF),
    p("C24", "The metamodel is the announced one, fitted on the kept and transformed data",
      "The kriging behind KrigingPOD is a Gaussian process fitted on the standardised kept inputs and their (transformed) signals, with the covariance "
      "model and basis given by the user or the documented defaults (anisotropic squared exponential; constant plus linear in the defect), its scales "
      "optimised from the asked number of starting points. The chaos behind PolynomialChaosPOD is the least-squares expansion of the "
      "(transformed) signals on the kept inputs with the law, strategies and degree given by the user or the documented defaults. A result given by the user is "
      "used as it is. The accessors return what was used.",
      ["inputs", "configurations"], "all data, thresholds, Box-Cox requests and combinations of given and default settings",
      "Tests fit one default model per class and compare a few curve values within loose tolerances; wrong data or settings in the fit move them slightly.",
      [KT, KP, PC], [("_buildKrigingAlgo", KT), ("_estimKrigingTheta", KT), ("_buildChaosAlgo", PC)]),
    p("C25", "A run depends on the data and current settings, not on earlier runs",
      "For the linear, quantile, chaos and kriging POD classes and SobolIndices: if run() is called, settings are changed or not, and run() is called again, "
      "then the POD curves, confidence curves, detection sizes, R2, Q2, models, distributions and indices it gives are those of an object that "
      "had the current settings from the start (up to the random draws): defaults derived from other settings follow these, and nothing chosen, dropped or transformed by "
      "the first run is kept by the second. (The adaptive classes go on enriching their data by design.)",
      ["inputs", "configurations", "histories"], "all data, thresholds, Box-Cox requests, and pairs of settings before and after a run",
      "Tests run each object once, or twice with a change of one setting without comparing with a fresh object.",
      [LM, QR, PC, KP, SO], [("run", LM), ("run", QR), ("run", PC), ("run", KP), ("run", SO)]),
    p("C17", "Verbosity and graph settings change only what is displayed",
      "For every POD class and the summary, the results and the errors of run() are the same whatever the verbosity and the graph settings of the "
      "adaptive classes: no model is fitted, no random number is drawn and no result is computed only because of them. run() writes to the terminal only "
      "if verbosity is enabled. Windows are opened only if setGraphActive asked for graphs, the POD graphs being drawn at the levels given as "
      "long as the current POD reaches them; files are written only into the directory given, one per iteration.",
      ["inputs", "configurations"], "all data, thresholds, Box-Cox requests, iterations, verbosity and graph settings",
      "Tests run with one verbosity; graphs, levels the current curve does not reach and directories are not tested.",
      [AS, HM], [("run", AS), ("run", HM), ("setGraphActive", AS)]),
    p("C08", "Graphs show what the object computes, on the returned axes, saved when asked",
      "Every drawing method returns the figure it made and that figure's axes, draws all its data on these axes, and saves that figure, once "
      "complete, under the given name when there is one and not otherwise. The data drawn are those of the object for the same arguments: the POD "
      "curve and, when asked, the confidence curve and detection sizes at the asked levels over the asked range (drawPOD); measured against "
      "predicted signals (drawValidationGraph); the Box-Cox likelihood with its maximum; the regression, its residuals, their law and quantiles, "
      "censored or not; the fitted quantile line and polynomial chaos; perturbed-law indices against the perturbation or signed Hellinger "
      "distance with their intervals, perturbed densities and contours; Sobol indices per size or aggregated, under the names of their inputs.",
      ["inputs", "configurations"], "all data, settings and arguments of the drawing methods of every class",
      "Drawing tests only check that a figure comes back; what is on it is never looked at.",
      [POD, KT, AS, LM, QR, PC, AN, PL, PP, SO, MT],
      [("drawPOD", POD), ("drawValidationGraph", KT), ("drawBoxCoxLikelihood", POD), ("drawIndices", PL), ("drawContourIndices", PP)]),
]

NA = [
    ("C90", "Statistical coverage of the confidence curves",
     "Over repeated data sets, the curve at confidence level c lies below the true POD with frequency c.",
     "Frequency over random data sets and optimiser outcomes: no static argument bounds it; only the construction of the bound is decided (C01)."),
    ("C91", "POD curves are monotone in the defect size and stay within [0, 1]",
     "Every POD curve returned is between 0 and 1 and does not decrease with the defect size.",
     "Depends on the fitted coefficients and simulated samples (a negative slope is accepted by the library): numerical, not a property of the source."),
    ("C92", "The optimisers reach the optimum",
     "The maximum-likelihood, kriging and Box-Cox parameters returned are global optima of their criteria.",
     "Convergence of external numerical optimisers on arbitrary data cannot be decided from this source; which criterion they are given is (C23)."),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
        for q in PROPS:
            fd.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}) + "\n")
        for pid, title, st, why in NA:
            fd.write(json.dumps({
                "id": pid, "title": title, "statement": st, "quantifier": {"over": ["inputs"], "text": "all data"},
                "why_tests_cant": "A handful of seeds on one data set.", "anchors": {"files": [POD], "mechanism": []}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 run.py --selftest",
         "checks": [{"property": q["id"], "quick_cmd": "python3 run.py --property %s --tier quick" % q["id"],
                     "thorough_cmd": "python3 run.py --property %s --tier thorough" % q["id"],
                     "technique": q["technique"], "level": "other", "level_note": TRUST + q["note"]} for q in PROPS],
         "not_applicable": [{"property": n[0], "reason": n[3]} for n in NA],
         "notes": "No hooks: the checks parse /repo/otpod and never import or run it. Known findings: known_findings.json."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
        json.dump(m, fd, indent=1)
        fd.write("\n")


if __name__ == "__main__":
    main()
