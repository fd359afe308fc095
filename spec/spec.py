"""Prescribed values, written as plain formulas over the external libraries.

These functions are never executed: the analyser maps them to value terms with
the same abstract semantics it uses for /repo, and compares normal forms.
"""
import math
import sys

import numpy as np
import openturns as ot
import matplotlib.pyplot as plt
from openturns.viewer import View
from scipy.interpolate import interp1d
from scipy.optimize import fsolve


# ---------------------------------------------------------------- C01
def interpolated(sizes, values):
    return ot.PythonFunction(1, 1, interp1d(sizes, values, kind="linear"))


def cl_interpolated(sizes, pods, c):
    return interpolated(sizes, pods.computeQuantilePerComponent(1 - c))


def mean_interpolated(sizes, pods):
    return interpolated(sizes, pods.computeMean())


def binomial_pod(residuals, threshold):
    return [1 - ot.UserDefined(residuals).computeCDF(threshold)]


def binomial_cl(residuals, threshold, c):
    n = residuals.getSize()
    detected = math.trunc(n * (1 - ot.UserDefined(residuals).computeCDF(threshold)))
    if detected == n:
        return [c ** (1.0 / n)]
    return [1 - ot.DistFunc.qBeta(n - detected, detected + 1, c)]


def simulated_cl(values, c):
    return ot.Sample(values).computeQuantilePerComponent(1 - c)


def quantreg_curve(defects, quantiles, largest):
    x = np.hstack([0, defects, largest])
    y = np.hstack([0, quantiles, quantiles.max()])
    return ot.PythonFunction(1, 1, interp1d(x, y, kind="linear"))


def quantreg_cl(samples, quantiles, largest, c):
    return quantreg_curve(samples.computeQuantilePerComponent(c), quantiles, largest)


# ---------------------------------------------------------------- shared data pipeline (C02, C03, C04)
def sample(x):
    return ot.Sample(np.vstack(x))


def kept(signals, noise, saturation):
    """rows strictly between the thresholds"""
    if noise is None:
        noise = -sys.float_info.max
    if saturation is None:
        saturation = sys.float_info.max
    s = np.array(signals)
    return np.hstack(np.logical_and(s > noise, s < saturation))


def below(signals, noise):
    if noise is None:
        noise = -sys.float_info.max
    return np.hstack(np.array(signals) <= noise)


def above(signals, saturation):
    if saturation is None:
        saturation = sys.float_info.max
    return np.hstack(np.array(signals) >= saturation)


def filter_inputs(inputs, signals, noise, saturation):
    return ot.Sample(np.array(inputs)[kept(signals, noise, saturation)])


def filter_signals(signals, noise, saturation):
    return ot.Sample(np.array(signals)[kept(signals, noise, saturation)])


def filter_noise(inputs, signals, noise, saturation):
    return ot.Sample(np.array(inputs)[below(signals, noise)])


def filter_saturated(inputs, signals, noise, saturation):
    return ot.Sample(np.array(inputs)[above(signals, saturation)])


def used_inputs(inputs, signals, noise, saturation):
    if noise is not None or saturation is not None:
        return filter_inputs(inputs, signals, noise, saturation)
    return inputs


def used_signals(signals, noise, saturation):
    if noise is not None or saturation is not None:
        return filter_signals(signals, noise, saturation)
    return signals


def shift(signals):
    if signals.getMin()[0] < 0:
        return -signals.getMin()[0] + 100
    return 0.0


def estimated_lambda(signals):
    return likelihood(signals)[0].getLambda()[0]


def likelihood(signals):
    factory = ot.BoxCoxFactory()
    x = shift(signals)
    if hasattr(factory, "buildWithGraph"):
        return factory.buildWithGraph(signals, [x])
    try:
        transform, graph = factory.build(signals, [x])
    except TypeError:
        transform = factory.build(signals, [x])
        graph = ot.Graph()
    return transform, graph


def boxcox_lambda(signals, box):
    """box: False, True or the parameter chosen by the user"""
    if isinstance(box, float):
        return box
    if box:
        return estimated_lambda(signals)
    return None


def transform(signals, box, values):
    """values in the transformed scale of the given (uncensored) signals"""
    if isinstance(box, float) or box:
        return ot.BoxCoxTransform([boxcox_lambda(signals, box)])(values + shift(signals))
    return values


def transform1(signals, box, value):
    if isinstance(box, float) or box:
        return ot.BoxCoxTransform([boxcox_lambda(signals, box)])([value + shift(signals)])[0]
    return value


def model_signals(outputs, noise, saturation, box):
    s = used_signals(sample(outputs), noise, saturation)
    return transform(s, box, s)


def model_inputs(inputs, outputs, noise, saturation):
    return used_inputs(sample(inputs), sample(outputs), noise, saturation)


def model_detection(outputs, noise, saturation, box, detection):
    return transform1(used_signals(sample(outputs), noise, saturation), box, detection)


def reported_lambda(outputs, noise, saturation, box):
    return boxcox_lambda(used_signals(sample(outputs), noise, saturation), box)


# ---------------------------------------------------------------- POD curves (C05, C06)
def default_factory():
    return ot.NormalFactory()


def design(defects):
    X = ot.Sample(defects.getSize(), [1, 0])
    X[:, 1] = defects
    return X


def ols(defects, signals):
    from statsmodels.regression.linear_model import OLS
    return OLS(np.array(signals), np.array(design(defects))).fit()


def linear_curve(factory, defects, detection, b0, b1, se, residuals):
    def pod(x):
        t = detection - (b0 + b1 * x[0])
        if factory is None:
            return [1 - ot.UserDefined(residuals).computeCDF(t)]
        if factory.getClassName() == "NormalFactory":
            y = ot.Point([1.0, x[0]])
            leverage = y.dot(ot.Matrix(design(defects)).computeGram().solveLinearSystem(y))
            return [ot.DistFunc.pNormal(t / np.sqrt(se ** 2 * (1.0 + leverage)), True)]
        return [1 - factory.build(residuals).computeCDF(t)]
    return ot.PythonFunction(1, 1, pod)


def linear_curve_ols(factory, inputs, outputs, noise, saturation, box, detection):
    """uncensored data"""
    defects = model_inputs(inputs, outputs, noise, saturation)
    fit = ols(defects, model_signals(outputs, noise, saturation, box))
    return linear_curve(factory, defects, model_detection(outputs, noise, saturation, box, detection),
                        fit.params[0], fit.params[1], np.sqrt(fit.scale), sample(fit.resid))


def linear_curve_censored(factory, inputs, outputs, noise, saturation, box, detection, coefs):
    """censored data: coefficients of maximum likelihood"""
    defects = model_inputs(inputs, outputs, noise, saturation)
    signals = model_signals(outputs, noise, saturation, box)
    return linear_curve(factory, defects, model_detection(outputs, noise, saturation, box, detection),
                        coefs[0], coefs[1], coefs[2], signals - (coefs[0] + coefs[1] * defects))


class Linear:
    """fitted linear model of given data; mle: coefficients of maximum likelihood (censored data)"""

    def __init__(self, inputs, outputs, noise, saturation, box, detection, mle):
        self.defects = used_inputs(inputs, outputs, noise, saturation)
        used = used_signals(outputs, noise, saturation)
        self.signals = transform(used, box, used)
        self.detection = transform1(used, box, detection)
        if noise is None and saturation is None:
            fit = ols(self.defects, self.signals)
            self.b0 = fit.params[0]
            self.b1 = fit.params[1]
            self.se = np.sqrt(fit.scale)
            self.residuals = sample(fit.resid)
        else:
            self.b0 = mle[0]
            self.b1 = mle[1]
            self.se = mle[2]
            self.residuals = self.signals - (self.b0 + self.b1 * self.defects)

    def gap(self, x):
        return self.detection - (self.b0 + self.b1 * x)


def linear_cl(factory, inputs, outputs, noise, saturation, box, boot_box, detection, c, size, mle, boot_mle):
    inputs, outputs = sample(inputs), sample(outputs)
    fit = Linear(inputs, outputs, noise, saturation, box, detection, mle)
    if factory is None:
        n = fit.residuals.getSize()

        def bound(x):
            detected = math.trunc(n * (1 - ot.UserDefined(fit.residuals).computeCDF(fit.gap(x[0]))))
            if detected == n:
                return [c ** (1.0 / n)]
            return [1 - ot.DistFunc.qBeta(n - detected, detected + 1, c)]
        return ot.PythonFunction(1, 1, bound)
    if factory.getClassName() == "NormalFactory":
        n = fit.defects.getSize()
        cov = ot.Matrix(design(fit.defects)).computeGram(True).solveLinearSystem(ot.IdentityMatrix(2))
        unit = ot.Normal([0, 0], ot.CovarianceMatrix(cov.getImplementation())).getSample(size)
        sigma = (ot.Chi(n - 2).inverse() * np.sqrt(n - 2) * fit.se).getSample(size)

        def simulated(x):
            pods = ot.Sample(size, 1)
            for i in range(size):
                mean = unit[i][0] * sigma[i][0] + fit.b0 + (unit[i][1] * sigma[i][0] + fit.b1) * x[0]
                pods[i] = [ot.DistFunc.pNormal((fit.detection - mean) / sigma[i][0], True)]
            return pods.computeQuantilePerComponent(1 - c)
        return ot.PythonFunction(1, 1, simulated)
    data = ot.Sample(inputs.getSize(), 2)
    data[:, 0] = inputs
    data[:, 1] = outputs
    experiment = ot.BootstrapExperiment(data)
    models = []
    for i in range(size):
        rows = experiment.generate()
        fit_i = Linear(rows[:, 0], rows[:, 1], noise, saturation, boot_box, detection, boot_mle)
        models.append((fit_i, factory.build(fit_i.residuals)))

    def replicated(x):
        pods = ot.Sample(size, 1)
        for i in range(size):
            pods[i] = [1 - models[i][1].computeCDF(models[i][0].gap(x[0]))]
        return pods.computeQuantilePerComponent(1 - c)
    return ot.PythonFunction(1, 1, replicated)


# ---------------------------------------------------------------- quantile regression
def quantile_line(algo, level):
    fit = algo.fit(level, max_iter=300, p_tol=1e-2)
    return ot.PythonFunction(1, 1, lambda x: ot.Point(fit.predict(ot.Point([1, x[0]]))))


def quantile_algo(defects, signals):
    from statsmodels.regression.quantile_regression import QuantReg
    return QuantReg(np.array(signals), np.array(design(defects)))


def quantreg_defects(inputs, outputs, noise, saturation):
    return used_inputs(sample(inputs), sample(outputs), noise, saturation)


def quantreg_pod(inputs, outputs, noise, saturation, box, detection, quantiles):
    """at each level q: the size whose (1 - q) signal quantile is the detection threshold"""
    defects = model_inputs(inputs, outputs, noise, saturation)
    algo = quantile_algo(defects, model_signals(outputs, noise, saturation, box))
    threshold = model_detection(outputs, noise, saturation, box, detection)
    largest = defects.getMax()[0]
    sizes = []
    for q in quantiles:
        sizes.append(ot.Brent().solve(quantile_line(algo, 1.0 - q), threshold, 0, largest))
    return quantreg_curve(sizes, quantiles, largest)


def quantreg_bound(inputs, outputs, noise, saturation, box, detection, quantiles, size, c):
    largest = model_inputs(inputs, outputs, noise, saturation).getMax()[0]
    inputs, outputs = sample(inputs), sample(outputs)
    data = ot.Sample(inputs.getSize(), 2)
    data[:, 0] = inputs
    data[:, 1] = outputs
    experiment = ot.BootstrapExperiment(data)
    sizes = ot.Sample(size, quantiles.size)
    for i in range(size):
        rows = experiment.generate()
        used = used_signals(rows[:, 1], noise, saturation)
        defects = used_inputs(rows[:, 0], rows[:, 1], noise, saturation)
        algo = quantile_algo(defects, transform(used, box, used))
        threshold = transform1(used, box, detection)
        line = []
        for q in quantiles:
            line.append(ot.Brent().solve(quantile_line(algo, 1.0 - q), threshold, -ot.SpecFunc.MaxScalar, defects.getMax()[0]))
        sizes[i, :] = line
    return quantreg_curve(np.array(sizes.computeQuantilePerComponent(c)), quantiles, largest)


# ---------------------------------------------------------------- kriging
def normalisation(inputs):
    dim = inputs.getDimension()
    stddev = inputs.computeStandardDeviation()
    linear = ot.SquareMatrix(dim)
    for j in range(dim):
        linear[j, j] = 1.0 / stddev[j] if abs(stddev[j]) > 1e-12 else 1.0
    return ot.LinearFunction(inputs.computeMean(), [0.0] * dim, linear)


def no_normalisation(dim):
    zero = [0.0] * dim
    return ot.LinearFunction(zero, zero, ot.IdentityMatrix(dim))


def default_sizes(defects, number):
    return np.linspace(defects.getMin()[0], defects.getMax()[0], number)


def uniform_inputs(inputs, sizes):
    """the inputs are uniform on the range of the (kept) data, the defect on the range of the defect sizes"""
    dim = inputs.getDimension()
    low, high = inputs.getMin(), inputs.getMax()
    low[0] = np.min(sizes)
    high[0] = np.max(sizes)
    return ot.JointDistribution([ot.Uniform(low[i], high[i]) for i in range(dim)])


def fix_defect(distribution, defect):
    """the defect (first input) is fixed, the others keep their marginal"""
    dim = distribution.getDimension()
    return ot.JointDistribution([ot.Dirac(defect)] + [distribution.getMarginal(i + 1) for i in range(dim - 1)], distribution.getCopula())


def default_basis(dim):
    names = ["x" + str(i) for i in range(dim)]
    return ot.Basis([ot.SymbolicFunction(names, ["1"]), ot.SymbolicFunction(names, [names[0]])])


def default_covariance(dim):
    return ot.SquaredExponential([1] * dim)


def kriging_simulations(result, points, nsim, nmc):
    cond = ot.GaussianProcessConditionalCovariance(result)
    variance = np.hstack([cond.getConditionalCovariance(points[i])[0, 0] for i in range(nmc)])
    mean = cond.getConditionalMean(points).asPoint()
    noise = ot.Normal().getSample(nsim)
    return np.array(noise) * np.sqrt(variance) + np.array(mean)


def monte_carlo_mixture(values, threshold, nsim, nmc):
    """values: one row per simulation, one column per Monte-Carlo point"""
    p = np.mean(values > threshold, axis=1)
    var = p * (1 - p) / values.shape[1]
    dists = []
    for i in range(nsim):
        if var[i] > 0:
            dists += [ot.Normal(p[i], np.sqrt(var[i]))]
        elif p[i] < 1:
            dists += [ot.Dirac([0.0])]
        else:
            dists += [ot.Dirac([1.0])]
    return ot.Mixture(dists).getSample(nsim * nmc)


def kriging_pods(result, transformation, distribution, threshold, sizes, number, nsim, nmc):
    pods = ot.Sample(nsim * nmc, number)
    for i, defect in enumerate(sizes):
        points = fix_defect(distribution, defect).getSample(nmc)
        values = kriging_simulations(result, transformation(points), nsim, nmc)
        pods[:, i] = monte_carlo_mixture(values, threshold, nsim, nmc)
    return pods


def kriging_curve(result, transformation, distribution, outputs, noise, saturation, box, detection, sizes, number, nsim, nmc):
    pods = kriging_pods(result, transformation, distribution, model_detection(outputs, noise, saturation, box, detection), sizes, number, nsim, nmc)
    return interpolated(sizes, np.array(pods.computeMean()))


def kriging_cl(result, transformation, distribution, outputs, noise, saturation, box, detection, sizes, number, nsim, nmc, c):
    pods = kriging_pods(result, transformation, distribution, model_detection(outputs, noise, saturation, box, detection), sizes, number, nsim, nmc)
    return interpolated(sizes, pods.computeQuantilePerComponent(1 - c))


def kriging_result(inputs, outputs, noise, saturation, box, covariance, basis, starts):
    x = model_inputs(inputs, outputs, noise, saturation)
    y = model_signals(outputs, noise, saturation, box)
    fitter = ot.GaussianProcessFitter(normalisation(x)(x), y, covariance, basis)
    tune(fitter, starts, scales(fitter))
    fitter.run()
    algo = ot.GaussianProcessRegression(fitter.getResult())
    algo.run()
    return algo.getResult()


def scales(fitter):
    return fitter.getReducedLogLikelihoodFunction().getInputDimension()


def tune(fitter, starts, n):
    lower, upper = [0.001] * n, [50] * n
    if starts > 0:
        box = ot.JointDistribution([ot.Uniform(lower[i], upper[i]) for i in range(len(lower))])
        fitter.setOptimizationBounds(ot.Interval(lower, upper))
        points = ot.LowDiscrepancyExperiment(ot.SobolSequence(), box, starts).generate()
        fitter.setOptimizationAlgorithm(ot.MultiStart(ot.TNC(), points))
    else:
        fitter.setOptimizeParameters(False)


def dimension(inputs):
    return sample(inputs).getDimension()


def count(x):
    return x.shape[0]


def default_number():
    return 20


# ---------------------------------------------------------------- polynomial chaos
def chaos_distribution(distribution, inputs):
    law = ot.JointDistribution(distribution)
    law.setDescription(inputs.getDescription())
    return law


def default_strategy(distribution, dim, degree):
    """polynomials orthonormal with respect to each marginal, up to the total degree"""
    family = [0.0] * dim
    for i in range(dim):
        family[i] = ot.StandardDistributionPolynomialFactory(distribution.getMarginal(i))
    order = ot.LinearEnumerateFunction(dim)
    return ot.FixedStrategy(ot.OrthogonalProductPolynomialFactory(family, order), order.getStrataCumulatedCardinal(degree))


def default_projection(inputs, signals):
    return ot.LeastSquaresStrategy(inputs, signals, ot.LeastSquaresMetaModelSelectionFactory(ot.LARS(), ot.KFold()))


def chaos_result(inputs, signals, distribution, strategy, projection):
    algo = ot.FunctionalChaosAlgorithm(inputs, signals, distribution, strategy, projection)
    algo.run()
    return algo.getResult()


def with_defect(defect, others):
    x = ot.Sample(others.getSize(), others.getDimension() + 1)
    x[:, 0] = ot.Sample(others.getSize(), [defect])
    x[:, 1:] = others
    return x


def chaos_function(result, coefs):
    return ot.ComposedFunction(ot.LinearCombinationFunction(result.getReducedBasis(), np.hstack(coefs)), result.getTransformation())


def chaos_stderr(result, inputs, signals):
    r = np.array(signals - result.getMetaModel()(inputs))
    return np.sqrt(np.sum(r ** 2) / (inputs.getSize() - result.getReducedBasis().getSize() - 1))


def chaos_probability(result, coefs, distribution, stderr, threshold, sizes, number, nmc, dim):
    """P(signal > threshold) per defect size: the defect is fixed, the other inputs and the error are random"""
    others = distribution.getSample(nmc)[:, 1:]
    points = ot.Sample(nmc * number, dim)
    for i, defect in enumerate(sizes):
        points[nmc * i:nmc * (i + 1), :] = with_defect(defect, others)
    error = ot.Normal().getSample(nmc * number) * stderr
    signals = np.reshape(chaos_function(result, coefs)(points) + error, (nmc, number), "F")
    return np.mean(signals > threshold, axis=0)


def chaos_curve(result, distribution, inputs, outputs, noise, saturation, box, detection, sizes, number, nmc, dim):
    x = model_inputs(inputs, outputs, noise, saturation)
    stderr = chaos_stderr(result, x, model_signals(outputs, noise, saturation, box))
    pod = chaos_probability(result, result.getCoefficients(), distribution, stderr,
                            model_detection(outputs, noise, saturation, box, detection), sizes, number, nmc, dim)
    return interpolated(sizes, pod)


def chaos_coefficients(result, inputs, outputs, noise, saturation, box):
    x = model_inputs(inputs, outputs, noise, saturation)
    stderr = chaos_stderr(result, x, model_signals(outputs, noise, saturation, box))
    n = result.getReducedBasis().getSize()
    dof = x.getSize() - n - 1
    variance = (ot.ChiSquare(dof).inverse() * dof * stderr ** 2).getRealization()[0]
    basis = ot.ComposedFunction(ot.AggregatedFunction(result.getReducedBasis()), result.getTransformation())
    cov = ot.Matrix(basis(x)).computeGram().solveLinearSystem(ot.IdentityMatrix(n)) * variance
    return ot.Normal(np.hstack(result.getCoefficients()), ot.CovarianceMatrix(cov.getImplementation()))


def chaos_cl(result, distribution, inputs, outputs, noise, saturation, box, detection, sizes, number, nmc, dim, nsim, c):
    x = model_inputs(inputs, outputs, noise, saturation)
    stderr = chaos_stderr(result, x, model_signals(outputs, noise, saturation, box))
    threshold = model_detection(outputs, noise, saturation, box, detection)
    coefs = chaos_coefficients(result, inputs, outputs, noise, saturation, box).getSample(nsim)
    pods = ot.Sample(nsim, number)
    for i, coef in enumerate(coefs):
        pods[i, :] = chaos_probability(result, coef, distribution, stderr, threshold, sizes, number, nmc, dim)
    return interpolated(sizes, pods.computeQuantilePerComponent(1 - c))


def result_distribution(result):
    return result.getDistribution()


# ---------------------------------------------------------------- adaptive kriging
def candidates(distribution, number):
    if distribution.hasIndependentCopula():
        return ot.LowDiscrepancyExperiment(ot.SobolSequence(), distribution, number).generate()
    return distribution.getSample(number)


def leave_one_out(x, y, result, transformation):
    points = transformation(np.array(x))
    cov = result.getCovarianceModel().discretize(points)
    n = np.array(x).shape[0]
    p = result.getTrendCoefficients().getDimension()
    trend = np.ones((n, p))
    for i in range(p):
        trend[:, i] = np.hstack(result.getBasis().build(i)(points))
    inverse = np.linalg.inv(np.vstack([np.hstack([cov, trend]), np.hstack([trend.T, np.zeros((p, p))])]))
    b = inverse[:n, :n]
    others = b * (np.ones(b.shape) - np.eye(n))
    return (-np.dot(others / np.atleast_2d(np.diag(b)).T, np.array(y))).ravel()


def q2(x, y, result, transformation):
    error = np.hstack(y) - leave_one_out(x, y, result, transformation)
    return 1 - np.mean(error ** 2) / np.var(y)


def mean_detection(metamodel, distribution, threshold, sizes, number, nmc, dim):
    """fraction of the predicted signals above the threshold per defect"""
    others = distribution.getSample(nmc)[:, 1:]
    points = ot.Sample(nmc * number, dim)
    for i, defect in enumerate(sizes):
        points[nmc * i:nmc * (i + 1), :] = with_defect(defect, others)
    return np.mean(np.reshape(metamodel(points), (nmc, number), "F") > threshold, axis=0)


def candidate_error(candidate, x, y, metamodel, covariance, basis, distribution, threshold, sizes, current, nsim, nmc):
    """integrated square error of the POD when the candidate is added with its predicted signal"""
    xs = x[:]
    xs.add(candidate)
    ys = y[:]
    ys.add(metamodel(candidate))
    scale = normalisation_of(xs, x.getDimension())
    fitter = ot.GaussianProcessFitter(scale(xs), ys, covariance, basis)
    optimizer = fitter.getOptimizationAlgorithm()
    optimizer.setMaximumIterationNumber(0)
    fitter.setOptimizationAlgorithm(optimizer)
    fitter.run()
    algo = ot.GaussianProcessRegression(fitter.getResult())
    algo.run()
    errors = []
    for i, defect in enumerate(sizes):
        points = fix_defect(distribution, defect).getSample(nmc)
        pods = monte_carlo_mixture(kriging_simulations(algo.getResult(), scale(points), nsim, nmc), threshold, nsim, nmc)
        errors.append(pods.computeVariance()[0] + (pods.computeMean()[0] - current[i]) ** 2)
    return np.sqrt(np.mean(errors))


def normalisation_of(inputs, dim):
    stddev = inputs.computeStandardDeviation()
    linear = ot.SquareMatrix(dim)
    for j in range(dim):
        linear[j, j] = 1.0 / stddev[j] if abs(stddev[j]) > 1e-12 else 1.0
    return ot.LinearFunction(inputs.computeMean(), [0.0] * dim, linear)


def adaptive(inputs, outputs, noise, saturation, box, detection, model, added, covariance, basis, starts, distribution, sizes, number,
             ncand, nsim, nmc, dim):
    used = used_signals(sample(outputs), noise, saturation)
    x = model_inputs(inputs, outputs, noise, saturation)
    y = transform(used, box, used)
    threshold = transform1(used, box, detection)
    cand = candidates(distribution, ncand)
    fitter = ot.GaussianProcessFitter(normalisation(x)(x), y, covariance, basis)
    n = scales(fitter)
    tune(fitter, starts, n)
    fitter.run()
    algo = ot.GaussianProcessRegression(fitter.getResult())
    algo.run()
    result = algo.getResult()
    done = 0
    while done < added:
        done += 1
        metamodel = ot.ComposedFunction(result.getMetaModel(), normalisation_of(x, dim))
        current = mean_detection(metamodel, distribution, threshold, sizes, number, nmc, dim)
        lowest = 1e9
        for i, c in enumerate(cand):
            error = candidate_error(c, x, y, metamodel, result.getCovarianceModel(), result.getBasis(), distribution, threshold,
                                    sizes, current, nsim, nmc)
            if error < lowest:
                lowest = error
                best = i
        point = cand[best]
        x.add(point)
        if isinstance(box, float) or box:
            y.add(ot.BoxCoxTransform([boxcox_lambda(used, box)])(model(point) + [shift(used)]))
        else:
            y.add(model(point))
        cand.erase(best)
        fitter = ot.GaussianProcessFitter(normalisation_of(x, dim)(x), y, result.getCovarianceModel(), result.getBasis())
        fitter.setOptimizeParameters(False)
        fitter.run()
        algo = ot.GaussianProcessRegression(fitter.getResult())
        algo.run()
        if q2(x, y, algo.getResult(), normalisation_of(x, dim)) < 0.95:
            fitter.setOptimizeParameters(True)
            tune(fitter, starts, n)
            fitter.run()
            algo = ot.GaussianProcessRegression(fitter.getResult())
            algo.run()
        result = algo.getResult()
    return x, y, result


def adaptive_inputs(state):
    return state[0]


def adaptive_outputs(state, outputs, noise, saturation, box):
    """in the scale of the physical model"""
    used = used_signals(sample(outputs), noise, saturation)
    if isinstance(box, float) or box:
        return ot.BoxCoxTransform([boxcox_lambda(used, box)]).getInverse()(state[1]) - shift(used)
    return state[1]


def adaptive_result(state):
    return state[2]


def adaptive_q2(state, dim):
    return q2(state[0], state[1], state[2], normalisation_of(state[0], dim))


# ---------------------------------------------------------------- hit miss
def hitmiss_pods(classifier, distribution, sizes, number, nmc, dim):
    """probability of detection predicted at each Monte-Carlo point (rows) for each defect size (columns)"""
    others = distribution.getSample(nmc)[:, 1:]
    points = ot.Sample(nmc * number, dim)
    for i, defect in enumerate(sizes):
        points[nmc * i:nmc * (i + 1), :] = with_defect(defect, others)
    return ot.Sample(np.reshape(classifier(np.array(points))[:, 1], (nmc, number), "F"))


def hitmiss_curve(classifier, distribution, sizes, number, nmc, dim):
    return interpolated(sizes, np.array(hitmiss_pods(classifier, distribution, sizes, number, nmc, dim).computeMean()))


def hitmiss_cl(classifier, distribution, sizes, number, nmc, dim, c):
    return interpolated(sizes, hitmiss_pods(classifier, distribution, sizes, number, nmc, dim).computeQuantilePerComponent(1 - c))


def hitmiss_labels(outputs, noise, saturation, detection):
    s = used_signals(sample(outputs), noise, saturation)
    if detection is None:
        return s
    return ot.Sample(np.vstack(np.array(np.array(s) > detection, dtype="int")))


# ---------------------------------------------------------------- detection size
def detection_size(pod, cl, level, c, low, high):
    """sizes at which the curves reach the level, after checking that they do within the range"""
    if not (pod([low])[0] <= level <= pod([high])[0]):
        raise Exception("level not reached")
    size = ot.PointWithDescription(1, ot.Brent().solve(pod, level, low, high))
    if c is not None:
        if not (cl([low])[0] <= level <= cl([high])[0]):
            raise Exception("level not reached")
        size.add(ot.Brent().solve(cl, level, low, high))
    return size


def sizes_min(sizes):
    return np.min(sizes)


def sizes_max(sizes):
    return np.max(sizes)


def sample_min(x):
    return sample(x).getMin()[0]


def sample_max(x):
    return sample(x).getMax()[0]


def quantreg_size(algo, cl, threshold, level, c, low, high):
    try:
        size = ot.PointWithDescription(1, ot.Brent().solve(quantile_line(algo, 1.0 - level), threshold, low, high))
    except Exception:
        raise Exception("level not reached")
    if c is not None:
        if not (cl([low])[0] <= level <= cl([high])[0]):
            raise Exception("level not reached")
        size.add(ot.Brent().solve(cl, level, low, high))
    return size


def quantreg_fit(inputs, outputs, noise, saturation, box):
    return quantile_algo(model_inputs(inputs, outputs, noise, saturation), model_signals(outputs, noise, saturation, box))


def first(x):
    return x[0]


def smallest(x):
    return x.getMin()[0]


def largest(x):
    return x.getMax()[0]


# ---------------------------------------------------------------- linear analysis
def ols_fit(inputs, outputs, noise, saturation, box):
    return ols(model_inputs(inputs, outputs, noise, saturation), model_signals(outputs, noise, saturation, box))


def ols_start(inputs, outputs, noise, saturation, box):
    fit = ols_fit(inputs, outputs, noise, saturation, box)
    return [fit.params[0], fit.params[1], np.sqrt(fit.scale)]


def uncensored_residuals(inputs, outputs, noise, saturation, box):
    return sample(ols_fit(inputs, outputs, noise, saturation, box).resid)


def censored_residuals(inputs, outputs, noise, saturation, box, coefs):
    defects = model_inputs(inputs, outputs, noise, saturation)
    return model_signals(outputs, noise, saturation, box) - (coefs[0] + coefs[1] * defects)


def both(label, unc, cens, censored):
    """one value per case, named"""
    if not censored:
        return ot.PointWithDescription([(label + " for uncensored case", unc)])
    return ot.PointWithDescription([(label + " for uncensored case", unc), (label + " for censored case", cens)])


def coefficient(inputs, outputs, noise, saturation, box, coefs, k, label):
    fit = ols_fit(inputs, outputs, noise, saturation, box)
    unc = np.sqrt(fit.scale) if k == 2 else fit.params[k]
    if noise is None and saturation is None:
        return both(label, unc, None, False)
    return both(label, unc, coefs[k], True)


def residuals_table(inputs, outputs, noise, saturation, box, coefs):
    unc = uncensored_residuals(inputs, outputs, noise, saturation, box)
    if noise is None and saturation is None:
        unc.setDescription(["Residuals for uncensored case"])
        return unc
    table = ot.Sample(unc.getSize(), 2)
    table[:, 0] = unc
    table[:, 1] = censored_residuals(inputs, outputs, noise, saturation, box, coefs)
    table.setDescription(["Residuals for uncensored case", "Residuals for censored case"])
    return table


def residuals_laws(inputs, outputs, noise, saturation, box, coefs, factory):
    laws = [factory.build(uncensored_residuals(inputs, outputs, noise, saturation, box))]
    if noise is not None or saturation is not None:
        laws.append(factory.build(censored_residuals(inputs, outputs, noise, saturation, box, coefs)))
    return laws


def r2_of(signals, residuals):
    return 1 - residuals.computeVariance()[0] / signals.computeVariance()[0]


def statistic(test, defects, signals, residuals, law):
    n = residuals.getSize()
    if test == "R2":
        return 1 - residuals.computeVariance()[0] / (signals - signals.computeMean()).computeVariance()[0]
    if test == "Anderson Darling p-value":
        return ot.NormalityTest.AndersonDarlingNormal(residuals).getPValue()
    if test == "Cramer Von Mises p-value":
        return ot.NormalityTest.CramerVonMisesNormal(residuals).getPValue()
    if test == "Kolmogorov p-value":
        return ot.FittingTest.Kolmogorov(residuals, law, 0.05).getPValue()
    if test == "Zero Mean p-value":
        t = residuals.computeMean()[0] / np.sqrt(residuals.computeVariance()[0] / n)
        return 2 * ot.DistFunc.pStudent(n - 1, -np.abs(t))
    if test == "Breusch Pagan p-value":
        r2 = np.array(residuals) ** 2
        w = r2 - np.sum(r2) / defects.getSize()
        lin = ot.LinearLeastSquares(defects, w)
        lin.run()
        bp = defects.getSize() * np.sum(np.array(lin.getMetaModel()(defects)) ** 2) / np.sum(w ** 2)
        return 1 - ot.DistFunc.pNonCentralChiSquare(1, 0, bp)
    if test == "Harrison McCabe p-value":
        return harrison_mccabe(residuals, 0.5, 1000)
    if test == "Durbin Watson p-value":
        return durbin_watson(defects, residuals)
    return None


def first_half_share(values, k):
    return np.sum(values[:k] ** 2) / np.sum(values ** 2)


def harrison_mccabe(residuals, ratio, size):
    """probability, for normal residuals, that the first half carries at most the observed share of the variance"""
    n = residuals.getSize()
    k = int(np.floor(ratio * n))
    law = ot.Normal()
    shares = np.zeros(size)
    for i in range(size):
        x = law.getSample(n)
        shares[i] = first_half_share(np.array((x - x.computeMean()[0]) / x.computeStandardDeviation()[0]), k)
    return np.mean(shares <= first_half_share(np.array(residuals), k))


def durbin_watson(x, residuals):
    """two-sided p-value of the normal approximation of the statistic"""
    n, p = x.getSize(), x.getDimension() + 1
    r = np.array(residuals)
    d = np.sum(np.diff(np.hstack(r)) ** 2) / np.sum(r ** 2)
    X = ot.Matrix(n, p)
    X[:, 0] = np.ones((n, 1))
    X[:, 1] = x
    B = ot.Matrix(n, p)
    B[0, 1] = x[0][0] - x[1][0]
    B[n - 1, 1] = x[n - 1][0] - x[n - 2][0]
    for i in range(n - 2):
        B[i + 1, 1] = -x[i][0] + 2 * x[i + 1][0] - x[i + 2][0]
    G = X.computeGram()
    W = ot.SquareMatrix(G.solveLinearSystem(B.transpose() * X))
    P = 2 * (n - 1) - W.computeTrace()
    if hasattr(G, "solveLinearSystemInPlace"):
        trace = ot.SquareMatrix(G.solveLinearSystemInPlace(B.computeGram())).computeTrace()
    else:
        trace = ot.SquareMatrix(G.solveLinearSystem(B.computeGram(), False)).computeTrace()
    Q = 2 * (3 * n - 4) - 2 * trace + ot.SquareMatrix(W * W).computeTrace()
    mean = P / (n - p)
    variance = 2.0 / ((n - p) * (n - p + 2)) * (Q - P * mean)
    return 2 * ot.DistFunc.pNormal(np.abs(d - mean) / np.sqrt(variance), True)


def test_result(inputs, outputs, noise, saturation, box, coefs, factory, test):
    defects = model_inputs(inputs, outputs, noise, saturation)
    signals = model_signals(outputs, noise, saturation, box)
    laws = residuals_laws(inputs, outputs, noise, saturation, box, coefs, factory)
    unc = statistic(test, defects, signals, uncensored_residuals(inputs, outputs, noise, saturation, box), laws[0])
    if noise is None and saturation is None:
        return both(test, unc, None, False)
    cens = censored_residuals(inputs, outputs, noise, saturation, box, coefs)
    return both(test, unc, statistic(test, defects, signals, cens, laws[1]), True)


def linear_r2(inputs, outputs, noise, saturation, box, coefs):
    signals = model_signals(outputs, noise, saturation, box)
    if noise is None and saturation is None:
        residuals = uncensored_residuals(inputs, outputs, noise, saturation, box)
    else:
        residuals = censored_residuals(inputs, outputs, noise, saturation, box, coefs)
    return statistic("R2", None, signals, residuals, None)


def likelihood_of(inputs, outputs, noise, saturation, box):
    """opposite of the log-likelihood of censored normal data"""
    x = np.array(model_inputs(inputs, outputs, noise, saturation))
    s = sample(outputs)
    xn = np.array(filter_noise(sample(inputs), s, noise, saturation))
    xs = np.array(filter_saturated(sample(inputs), s, noise, saturation))
    y = np.array(model_signals(outputs, noise, saturation, box))
    used = used_signals(s, noise, saturation)
    low = transform1(used, box, noise) if noise is not None else None
    high = transform1(used, box, saturation) if saturation is not None else None

    def value(coefs):
        b0, b1, se = coefs[0], coefs[1], coefs[2]
        v = len(x) * np.log(se * np.sqrt(2 * np.pi)) + np.sum((y - (b0 + b1 * x)) ** 2) / (2 * se ** 2)
        zn = (low - (b0 + b1 * xn)) / se
        v -= np.sum(np.log(np.array([ot.DistFunc.pNormal(zn[i][0]) for i in range(len(zn))])))
        zs = (high - (b0 + b1 * xs)) / se
        v -= np.sum(np.log(1 - np.array([ot.DistFunc.pNormal(zs[i][0]) for i in range(len(zs))])))
        if np.isnan(v):
            return np.inf
        return v
    return value


# ---------------------------------------------------------------- validation coefficients
def kriging_q2(inputs, outputs, noise, saturation, box, result, transformation):
    return q2(model_inputs(inputs, outputs, noise, saturation), model_signals(outputs, noise, saturation, box), result, transformation)


def chaos_r2(result, inputs, outputs, noise, saturation, box):
    signals = model_signals(outputs, noise, saturation, box)
    residuals = signals - result.getMetaModel()(model_inputs(inputs, outputs, noise, saturation))
    return statistic("R2", None, signals, residuals, None)


def chaos_q2(result, inputs, outputs, noise, saturation, box):
    x = model_inputs(inputs, outputs, noise, saturation)
    signals = model_signals(outputs, noise, saturation, box)
    basis = ot.ComposedFunction(ot.AggregatedFunction(result.getReducedBasis()), result.getTransformation())
    A = ot.Matrix(basis(x))
    H = A * A.computeGram().solveLinearSystem(A.transpose())
    error = np.array(signals - np.array(result.getMetaModel()(x))) / (1.0 - np.vstack(np.array(H).diagonal()))
    return 1 - np.mean(error ** 2) / signals.computeVariance()[0]


def quantreg_r2(inputs, outputs, noise, saturation, box, quantile):
    return quantreg_fit(inputs, outputs, noise, saturation, box).fit(quantile).prsquared


def censored_split(inputs, signals, noise, saturation):
    """kept inputs, inputs below the noise, inputs above the saturation, kept signals"""
    return (filter_inputs(inputs, signals, noise, saturation), filter_noise(inputs, signals, noise, saturation),
            filter_saturated(inputs, signals, noise, saturation), filter_signals(signals, noise, saturation))


def sorted_sizes(size):
    x = np.hstack(np.array(size))
    x.sort()
    return x


def default_quantiles():
    return np.linspace(0.05, 0.98, 21)


def column0(x):
    return x[:, 0]


# ---------------------------------------------------------------- adaptive hit miss
def new_classifier(kind, parameters):
    from sklearn import svm
    from sklearn.ensemble import ExtraTreesClassifier
    if kind == "svc":
        return svm.SVC(C=parameters[0][0], kernel=parameters[1][0], degree=parameters[2][0], gamma="auto", probability=parameters[3][0], coef0=1,
                       random_state=0)
    if kind == "rf":
        return ExtraTreesClassifier(n_estimators=parameters[0][0], max_depth=parameters[1][0], min_samples_split=parameters[2][0],
                                    random_state=parameters[3][0])


def corrected(classifier, confusion):
    """probabilities corrected with the averaged confusion matrix, kept within [0, 1]"""
    p11, p10 = confusion[1, 1], confusion[1, 0]

    def predict(x):
        p = 1.0 / (p11 - p10) * (classifier(x)[:, 1] - p10)
        p = np.max(np.array([p, np.zeros(len(p))]), axis=0)
        p = np.vstack(np.min(np.array([p, np.ones(len(p))]), axis=0))
        return np.array([1 - p, p]).T[0]
    return predict


def between(p, low, high):
    return np.intersect1d(np.where(p >= low)[0], np.where(p < high)[0])


def hitmiss(inputs, outputs, noise, saturation, detection, model, added, distribution, ncand, pmin, pmax, kind, parameters):
    """inputs, labels, classifier and confusion matrix after the improvement loop"""
    from sklearn.metrics import confusion_matrix
    x = model_inputs(inputs, outputs, noise, saturation)
    start = x.getSize()
    x = np.array(x)
    labels = np.hstack(hitmiss_targets(outputs, noise, saturation, detection))
    cand = np.array(candidates(distribution, ncand))
    if detection is not None:
        model = ot.IndicatorFunction(ot.LevelSet(model, ot.Greater(), detection))
    algo = new_classifier(kind, parameters)
    algo.fit(x, labels)
    current = algo.predict_proba
    classifiers = [current]
    confusion = None
    done = 0
    while done < added:
        p = current(cand)[:, 1]
        chosen = between(p, pmin, pmax)
        if len(chosen) == 0:
            chosen = between(p, 0.1, 0.8)
        rank = np.argsort(p[chosen])
        n = len(chosen)
        picks = cand[chosen[rank[[0, int(n / 4.0), int(n / 2.0), int(3.0 * n / 4.0), n - 1]]], :]
        answers = np.hstack(model(picks))
        total = len(x) + len(picks)
        if total > start + added:
            answers = answers[:added + start - len(x)]
            picks = picks[:added + start - len(x), :]
        x = np.vstack((x, picks))
        labels = np.hstack((labels, answers))
        done = total - start
        algo = new_classifier(kind, parameters)
        algo.fit(x, labels)
        confusion = np.zeros((2, 2))
        for c in classifiers:
            m = 1.0 * confusion_matrix(labels, c(x)[:, 1] >= 0.5)
            confusion = m / m.sum(axis=0) + confusion
        confusion = confusion / len(classifiers)
        current = corrected(algo.predict_proba, confusion)
        classifiers.append(current)
    return ot.Sample(x), ot.Sample(np.vstack(labels)), current, confusion


def hitmiss_targets(outputs, noise, saturation, detection):
    s = used_signals(sample(outputs), noise, saturation)
    if detection is None:
        return s
    return np.array(np.array(s) > detection, dtype="int")


# ---------------------------------------------------------------- sensitivity of the POD to the other inputs
def other_inputs(result):
    return result.getMetaModel().getInputDimension() - 1


def others_law(law, dim):
    return ot.JointDistribution([law.getMarginal(i) for i in range(1, dim + 1)])


def at_sizes(sizes, x):
    x = np.array(x, ndmin=2).repeat(len(sizes), axis=0)
    return np.concatenate((np.vstack(sizes), x), axis=1)


def detection_given(result, transformation, threshold, sizes, x):
    points = transformation(at_sizes(sizes, x))
    law = ot.GaussianProcessConditionalCovariance(result)
    mean = np.array(law.getConditionalMean(points))
    var = np.array([law.getConditionalCovariance(p)[0, 0] for p in points])
    if (var < 0).any():
        if (var[var < 0] < -1e-2).any():
            raise ValueError("negative variance")
        var = np.abs(var)
    z = np.vstack((threshold - mean) / np.sqrt(var))
    return 1 - np.array([ot.DistFunc.pNormal(q[0]) for q in z])


def sobol_kriging(result, transformation, threshold, sizes, dim, law, n, method):
    def pod(x):
        return detection_given(result, transformation, threshold, sizes, x)
    return sobol(ot.PythonFunction(dim, len(sizes), pod), sizes, law, n, method)


def sobol_kriging_raw(result, threshold, sizes, dim, law, n, method):
    """recorded finding: the kriging model is evaluated without the normalization of its inputs"""
    return sobol_kriging(result, lambda x: x, threshold, sizes, dim, law, n, method)


def sobol_chaos(result, inputs, outputs, noise, saturation, box, nsim, threshold, sizes, dim, law, n, method):
    x = model_inputs(inputs, outputs, noise, saturation)
    stderr = chaos_stderr(result, x, model_signals(outputs, noise, saturation, box))
    coefs = chaos_coefficients(result, inputs, outputs, noise, saturation, box).getSample(nsim)
    basis, transformation = result.getReducedBasis(), result.getTransformation()
    functions = ot.AggregatedFunction([ot.ComposedFunction(ot.LinearCombinationFunction(basis, c), transformation) for c in coefs])

    def one(x):
        noise = np.hstack(ot.Normal().getSample(nsim) * stderr)
        return np.mean(np.array(functions(at_sizes(sizes, x))) + noise > threshold, axis=1)

    def several(xs):
        size, number = ot.Sample(xs).getSize(), len(sizes)
        points = ot.Sample(size * number, dim + 1)
        for i, x in enumerate(xs):
            points[number * i:number * (i + 1), :] = at_sizes(sizes, x)
        noise = ot.Normal(size).getSample(nsim) * stderr
        noises = ot.Sample(nsim, size * number)
        for i in range(size):
            noises[:, number * i:number * (i + 1)] = np.repeat(noise[:, i], number, axis=1)
        values = np.mean(np.array(functions(points)) + np.transpose(noises) > threshold, axis=1)
        return values.reshape(size, number)
    return sobol(ot.PythonFunction(dim, len(sizes), one, several), sizes, law, n, method)


def sobol(pod, sizes, law, n, method):
    design = ot.SobolIndicesExperiment(law, n, False).generate()
    out = pod(design)
    varying = [k for k in range(out.getDimension()) if out.getMarginal(k)[:n].computeCovariance()[0, 0] != 0]
    used = np.array(out)[:, varying] if len(varying) != out.getDimension() else out
    if method == "Saltelli":
        algo = ot.SaltelliSensitivityAlgorithm(design, used, n)
    elif method == "Martinez":
        algo = ot.MartinezSensitivityAlgorithm(design, used, n)
    elif method == "Jansen":
        algo = ot.JansenSensitivityAlgorithm(design, used, n)
    else:
        algo = ot.MauntzKucherenkoSensitivityAlgorithm(design, used, n)
    algo.setUseAsymptoticDistribution(True)
    return algo


# ---------------------------------------------------------------- perturbed-law indices
def pli_deltas(deltas, dim):
    d = np.vstack(np.array(deltas))
    if d.shape[1] == 1:
        return np.ones((d.shape[0], dim)) * d
    return d


def pli_size(deltas):
    return np.vstack(np.array(deltas)).shape[0]


def pli_mean_deltas(law, deltas, scaled):
    d = pli_deltas(deltas, law.getDimension())
    if scaled:
        return d * law.getStandardDeviation() + law.getMean()
    return d


def pli_variance_deltas(law, deltas, scaled):
    d = pli_deltas(deltas, law.getDimension())
    if scaled:
        return (d * np.array(law.getMean()) + np.array(law.getStandardDeviation())) ** 2
    return d


def original_mean(law, marginal):
    return law.getMarginal(marginal).getMean()[0]


def original_variance(law, marginal):
    return law.getMarginal(marginal).getCovariance()[0, 0]


def failures(result):
    event = result.getEvent()
    g = ot.MemoizeFunction(event.getFunction())
    x, y = np.array(g.getInputHistory()), np.hstack(np.array(g.getOutputHistory()))
    operator = event.getOperator().getImplementation().getClassName()
    t = event.getThreshold()
    if operator == "Less":
        return x[y < t, :]
    elif operator == "LessOrEqual":
        return x[y <= t, :]
    elif operator == "Greater":
        return x[y > t, :]
    return x[y >= t, :]


def perturbed_mean_marginal(marginal, x, delta):
    x = np.atleast_2d(x)
    kind = marginal.getImplementation().getClassName()
    if delta == marginal.getMean()[0]:
        return np.array(marginal.computePDF(x))
    if kind == "Normal":
        s = marginal.getStandardDeviation()[0]
        return np.exp(-((x - delta) / s) ** 2 / 2) / (s * np.sqrt(2 * np.pi))

    def tilted_mean(k, a, b, delta):
        a = float(a)
        if k == 0:
            return (a + b) / 2 - delta
        return (np.exp(k * b) * (k * b - 1) + np.exp(k * a) * (1 - k * a)) / (k * (np.exp(k * b) - np.exp(k * a))) - delta
    a, b = marginal.getParameter()
    k = fsolve(tilted_mean, 0, args=(a, b, delta), epsfcn=marginal.getStandardDeviation()[0] * 0.01)
    return k / (np.exp(k * b) - np.exp(k * a)) * np.exp(k * x) * np.logical_and(x <= b, x >= a)


def tilt_integral(marginal, quadrature, k, degree):
    def f(x):
        x = np.atleast_2d(x)
        return (x ** degree * np.array(marginal.computePDF(x)) * np.exp(k[0] * x + k[1] * x ** 2))[0]
    return quadrature.integrate(ot.PythonFunction(1, 1, f), marginal.getRange())[0]


def tilt_parameters(marginal, quadrature, mean, square):
    """the exponential tilt with the given first two moments: minimiser of log E exp(k.(X, X^2)) - k.moments"""
    moments = [mean, square]

    def integral(k, degree):
        return tilt_integral(marginal, quadrature, k, degree)

    def lagrange(k):
        z = np.log(integral(k, 0))
        return [z - np.sum(np.hstack(k) * np.hstack(moments))]

    def gradient(k):
        z = integral(k, 0)
        if z == 0:
            raise ZeroDivisionError("")
        return np.vstack([integral(k, 1) / z - moments[0], integral(k, 2) / z - moments[1]])

    def hessian(k):
        z, m1, m2, m3, m4 = integral(k, 0), integral(k, 1), integral(k, 2), integral(k, 3), integral(k, 4)
        cross = m3 / z - m1 * m2 / z ** 2
        return np.atleast_2d([[m2 / z - m1 ** 2 / z ** 2, cross], [cross, m4 / z - m2 ** 2 / z ** 2]])
    f = ot.PythonFunction(2, 1, lagrange, gradient=gradient, hessian=hessian)
    problem = ot.OptimizationProblem(f, ot.Function(), ot.Function(), ot.Interval([-1000.0] * 2, [1000.0] * 2))
    search = ot.NLopt(problem, "LD_SLSQP")
    search.setStartingPoint([0, 0])
    search.run()
    return search.getResult().getOptimalPoint()


def perturbed_variance_marginal(marginal, x, delta, quadrature):
    x = np.atleast_2d(x)
    kind = marginal.getImplementation().getClassName()
    if delta == marginal.getCovariance()[0, 0]:
        return np.array(marginal.computePDF(x))
    mean = marginal.getMean()[0]
    if kind == "Normal":
        s = np.sqrt(delta)
        return np.exp(-((x - mean) / s) ** 2 / 2) / (s * np.sqrt(2 * np.pi))
    k = tilt_parameters(marginal, quadrature, mean, delta + mean ** 2)
    psi = np.log(tilt_integral(marginal, quadrature, k, 0))
    return np.exp(k[0] * x + k[1] * x ** 2 - psi) * marginal.computePDF(x)


def perturbed_marginal(kind, law, quadrature):
    """f(marginal number, x, delta)"""
    if kind == "mean":
        return lambda m, x, delta: perturbed_mean_marginal(law.getMarginal(m), x, delta)
    return lambda m, x, delta: perturbed_variance_marginal(law.getMarginal(m), x, delta, quadrature)


def deltas_of(kind, law, deltas, scaled):
    return pli_mean_deltas(law, deltas, scaled) if kind == "mean" else pli_variance_deltas(law, deltas, scaled)


def perturbed_joint(law, f, x, m, delta):
    x = np.atleast_2d(x)
    marginals = [law.getMarginal(i).computePDF for i in range(law.getDimension())]
    marginals[m] = lambda y: f(m, y, delta)
    p = 1.0
    for i in range(x.shape[1]):
        p *= np.array(marginals[i](np.vstack(x[:, i])))
    return p


def pli(kind, result, law, deltas, scaled, quadrature):
    """probabilities, indices, laws of the estimators: rows are perturbations, columns are marginals"""
    d = deltas_of(kind, law, deltas, scaled)
    f = perturbed_marginal(kind, law, quadrature)
    size, dim = pli_size(deltas), law.getDimension()
    n, pf = result.getOuterSampling() * result.getBlockSize(), result.getProbabilityEstimate()
    x = failures(result)
    p, v, s = np.zeros((size, dim)), np.zeros((size, dim)), np.zeros((size, dim))
    laws = [ot.DistributionCollection(dim) for k in range(size)]
    for m in range(dim):
        for k in range(size):
            p[k, m] = np.sum(perturbed_joint(law, f, x, m, d[k, m]) / law.computePDF(x)) / n
            v[k, m] = np.sum((perturbed_joint(law, f, x, m, d[k, m]) / law.computePDF(x)) ** 2) / n - p[k, m] ** 2
            s[k, m] = pli_index(p[k, m], pf)
            laws[k][m] = pli_law(p[k, m], v[k, m], s[k, m], pf, n)
    return p, s, laws


def pli_index(p, pf):
    return (p - pf) / p if p < pf else (p - pf) / pf


def pli_law(p, v, s, pf, n):
    """delta method on the pair (estimate of pf, estimate of the perturbed pf)"""
    cov = np.array([[pf * (1 - pf), p * (1 - pf)], [p * (1 - pf), v]])
    d = np.vstack([-1.0 / p, pf / p ** 2]) if p < pf else np.vstack([-p / pf ** 2, 1.0 / pf])
    var = np.dot(d.transpose(), np.dot(cov, d))
    if np.abs(var) < 1e-6 and var < 0 or var == 0:
        return ot.Normal(s, 1e-30)
    return ot.Normal(s, np.sqrt(var / n)[0, 0])


def pli_interval(laws, size, dim, level):
    ci = [np.zeros((size, 2)) for m in range(dim)]
    for m in range(dim):
        for k in range(size):
            i = laws[k][m].computeBilateralConfidenceInterval(level)
            ci[m][k, 0] = i.getLowerBound()[0]
            ci[m][k, 1] = i.getUpperBound()[0]
    return ci


def pli_probability_of(kind, result, law, deltas, scaled, quadrature):
    return pli(kind, result, law, deltas, scaled, quadrature)[0]


def pli_indices_of(kind, result, law, deltas, scaled, quadrature):
    return pli(kind, result, law, deltas, scaled, quadrature)[1]


def pli_interval_of(kind, result, law, deltas, scaled, quadrature, level):
    laws = pli(kind, result, law, deltas, scaled, quadrature)[2]
    return pli_interval(laws, pli_size(deltas), law.getDimension(), level)


def default_quadrature():
    return ot.GaussKronrod(50, 1e-5, ot.GaussKronrodRule(ot.GaussKronrodRule.G7K15))


def simulate_at(metamodel, threshold, law, n, size):
    """crude Monte Carlo of the detection probability at one defect size, keeping the sample"""
    g = ot.MemoizeFunction(ot.ParametricFunction(metamodel, [0], [size]))
    g.enableHistory()
    g.clearHistory()
    g.clearCache()
    detected = ot.ThresholdEvent(ot.CompositeRandomVector(g, ot.RandomVector(law)), ot.Greater(), threshold)
    algo = ot.ProbabilitySimulationAlgorithm(detected)
    algo.setMaximumOuterSampling(n)
    algo.setMaximumCoefficientOfVariation(-1)
    algo.run()
    return algo.getResult()


def pli_pod(kind, metamodel, threshold, law, dim, n, sizes, deltas, scaled, quadrature):
    """[perturbation, input, defect size]; not a number where detection is too rare or too frequent"""
    d = np.vstack(np.array(deltas))
    s = np.zeros((d.shape[0], dim, len(sizes)))
    for i in range(len(sizes)):
        result = simulate_at(metamodel, threshold, law, n, sizes[i])
        pf = result.getProbabilityEstimate()
        if pf > 1e-3 and pf < 0.999:
            s[:, :, i] = pli_indices_of(kind, result, law, d, scaled, ot.GaussKronrod(quadrature))
        else:
            s[:, :, i] = np.zeros(s[:, :, i].shape) * np.nan
    return s


def normalised_metamodel(result, transformation):
    return ot.ComposedFunction(result.getMetaModel(), transformation)


def metamodel_of(result):
    return result.getMetaModel()


def copied_quadrature(algo):
    return ot.GaussKronrod(algo)


def part_of(s, idelta, marginal, idefect):
    return s[idelta if idelta is not None else slice(None), marginal if marginal is not None else slice(None),
             idefect if idefect is not None else slice(None)]


# ---------------------------------------------------------------- figures
def draw_pod(pod, level, confidence, ends, n):
    first, last = ends[0], ends[1]
    fig, ax = plt.subplots()
    View(pod.getPODModel().draw(first, last, n), axes=[ax])
    if confidence is not None:
        View(pod.getPODCLModel(confidence).draw(first, last, n), axes=[ax])
    if level is not None:
        ax.hlines(level, first, last)
        found = pod.computeDetectionSize(level, confidence)
        ax.vlines(found[0], 0.0, level)
        if confidence is not None:
            ax.vlines(found[1], 0.0, level)
    return fig, ax


def pod_range(low, high, sizes):
    """what is drawn: the asked range inside that of the computed sizes"""
    smallest, largest = np.min(sizes), np.max(sizes)
    if low is not None and (low < smallest or low > largest):
        raise ValueError("")
    if high is not None and (high > largest or high < smallest):
        raise ValueError("")
    return smallest if low is None else low, largest if high is None else high


def free_range(low, high, inputs):
    return inputs.getMin()[0] if low is None else low, inputs.getMax()[0] if high is None else high


def draw_validation(target, prediction):
    target, prediction = np.hstack(target), np.hstack(prediction)
    fig, ax = plt.subplots()
    both = np.concatenate([target, prediction])
    ends = [0.99 * both.min(), 1.01 * both.max()]
    ax.plot(ends, ends)
    ax.plot(target, prediction)
    return fig, ax


def draw_kriging_validation(inputs, outputs, noise, saturation, box, result, transformation):
    y = model_signals(outputs, noise, saturation, box)
    return draw_validation(y, leave_one_out(model_inputs(inputs, outputs, noise, saturation), y, result, transformation))


def draw_adaptive_validation(state, dim):
    return draw_validation(state[1], leave_one_out(state[0], state[1], state[2], normalisation_of(state[0], dim)))


def draw_chaos_validation(inputs, outputs, noise, saturation, box, result):
    return draw_validation(model_signals(outputs, noise, saturation, box),
                           result.getMetaModel()(model_inputs(inputs, outputs, noise, saturation)))


def draw_fit(defects, signals, fitted_at, fitted):
    fig, ax = plt.subplots()
    ax.plot(defects, signals)
    ax.plot(fitted_at, fitted)
    return fig, ax


def draw_chaos(inputs, outputs, noise, saturation, box, result):
    x = ot.Sample(model_inputs(inputs, outputs, noise, saturation))
    ordered = x.sort()
    return draw_fit(x, model_signals(outputs, noise, saturation, box), ordered, result.getMetaModel()(ordered))


def draw_quantile(inputs, outputs, noise, saturation, box, level):
    x, y = model_inputs(inputs, outputs, noise, saturation), model_signals(outputs, noise, saturation, box)
    return draw_fit(x, y, x, quantile_algo(x, y).fit(1 - level).fittedvalues)


def draw_boxcox(signals, noise, saturation):
    fig, ax = plt.subplots()
    View(likelihood(used_signals(sample(signals), noise, saturation))[1], axes=[ax])
    return fig, ax


def chosen(which, unc, cens, censored):
    """the model asked for; there is one for censored data only when a threshold is given"""
    if which == "uncensored":
        return unc
    if which == "censored" and censored:
        return cens
    raise NameError("")


def draw_regression(inputs, outputs, noise, saturation, box, coefs, which):
    fit = ols_fit(inputs, outputs, noise, saturation, box)
    x = model_inputs(inputs, outputs, noise, saturation)
    cens = None
    if noise is not None or saturation is not None:
        cens = coefs[0] + coefs[1] * x
    v = chosen(which, fit.fittedvalues, cens, noise is not None or saturation is not None)
    return draw_fit(fit.model.exog[:, 1], fit.model.endog, fit.model.exog[:, 1], v)


def asked_residuals(inputs, outputs, noise, saturation, box, coefs, which):
    cens = None
    if noise is not None or saturation is not None:
        cens = censored_residuals(inputs, outputs, noise, saturation, box, coefs)
    return chosen(which, uncensored_residuals(inputs, outputs, noise, saturation, box), cens, noise is not None or saturation is not None)


def asked_law(inputs, outputs, noise, saturation, box, coefs, factory, which):
    laws = residuals_laws(inputs, outputs, noise, saturation, box, coefs, factory)
    if which == "uncensored":
        return laws[0]
    return laws[1]


def draw_residuals(inputs, outputs, noise, saturation, box, coefs, factory, which):
    r = asked_residuals(inputs, outputs, noise, saturation, box, coefs, which)
    x = ols_fit(inputs, outputs, noise, saturation, box).model.exog[:, 1]
    fig, ax = plt.subplots()
    ax.plot(x, r)
    ax.hlines(0, x.min(), x.max())
    return fig, ax


def draw_qq(inputs, outputs, noise, saturation, box, coefs, factory, which):
    r = asked_residuals(inputs, outputs, noise, saturation, box, coefs, which)
    fig, ax = plt.subplots()
    View(ot.VisualTest.DrawQQplot(r, asked_law(inputs, outputs, noise, saturation, box, coefs, factory, which)), axes=[ax])
    return fig, ax


def draw_law(inputs, outputs, noise, saturation, box, coefs, factory, which):
    r = asked_residuals(inputs, outputs, noise, saturation, box, coefs, which)
    fig, ax = plt.subplots()
    View(ot.HistogramFactory().build(r).drawPDF(), axes=[ax])
    View(asked_law(inputs, outputs, noise, saturation, box, coefs, factory, which).drawPDF(), axes=[ax])
    return fig, ax


def hellinger(law, f, quadrature, m, delta):
    """between a marginal and its perturbation"""
    g = ot.PythonFunction(1, 1, lambda z: np.sqrt(np.array(law.getMarginal(m).computePDF(np.atleast_2d(z)))
                                                  * np.array(f(m, np.atleast_2d(z), delta)))[0])
    return 2 - 2 * quadrature.integrate(g, law.getMarginal(m).getRange())[0]


def original_delta(kind, marginal):
    return marginal.getMean()[0] if kind == "mean" else marginal.getCovariance()[0, 0]


def names_of(label, dim):
    return ot.Description.BuildDefault(dim, "X") if label is None else label


def draw_pli_values(s, ci, kind, law, deltas, scaled, quadrature, level, distances, label):
    dim = law.getDimension()
    asked, d = np.vstack(np.array(deltas)), deltas_of(kind, law, deltas, scaled)
    f = perturbed_marginal(kind, law, quadrature)
    fig, ax = plt.subplots()
    for m in range(dim):
        x = asked[:, m if asked.shape[1] > 1 else 0].astype(float)
        if distances:
            for k, delta in enumerate(d[:, m]):
                x[k] = hellinger(law, f, quadrature, m, delta)
                if delta < original_delta(kind, law.getMarginal(m)):
                    x[k] = -x[k]
        ax.plot(x, s[:, m], label=names_of(label, dim)[m])
        if level is not None:
            ax.fill_between(x, ci[m][:, 0], ci[m][:, 1])
    return fig, ax


def draw_pli(pli, kind, law, deltas, scaled, quadrature, level, distances, label):
    ci = None
    if level is not None:
        ci = pli.computeConfidenceInterval(level)
    return draw_pli_values(pli.getIndices(), ci, kind, law, deltas, scaled, quadrature, level, distances, label)


def draw_marginal(kind, law, deltas, scaled, quadrature, m, k, original, low, high, n):
    low = law.getMarginal(m).computeQuantile(0.05)[0] if low is None else low
    high = law.getMarginal(m).computeQuantile(0.95)[0] if high is None else high
    n = ot.ResourceMap.GetAsUnsignedInteger("Distribution-DefaultPointNumber") if n is None else n
    x = np.vstack(np.linspace(low, high, n))
    fig, ax = plt.subplots()
    ax.plot(x, perturbed_marginal(kind, law, quadrature)(m, x, deltas_of(kind, law, deltas, scaled)[k, m]))
    if original:
        View(law.drawMarginal1DPDF(m, low, high, int(n)), axes=[ax])
    return fig, ax


def draw_pli_at(kind, metamodel, threshold, law, n, sizes, deltas, scaled, quadrature, i, level, distances, label):
    """the indices at the size number i"""
    result = simulate_at(metamodel, threshold, law, n, sizes[i])
    pf = result.getProbabilityEstimate()
    if not (pf > 1e-3 and pf < 0.999):
        raise Exception("")
    q = ot.GaussKronrod(quadrature)
    ci = None
    if level is not None:
        ci = pli_interval_of(kind, result, law, deltas, scaled, q, level)
    return draw_pli_values(pli_indices_of(kind, result, law, deltas, scaled, q), ci, kind, law, deltas, scaled, q, level, distances, label)


def draw_contour(kind, metamodel, threshold, law, dim, n, sizes, deltas, scaled, quadrature, m):
    kept_sizes = np.arange(0, len(sizes), 1).tolist()
    for i in range(len(sizes)):
        pf = simulate_at(metamodel, threshold, law, n, sizes[i]).getProbabilityEstimate()
        if not (pf > 1e-3 and pf < 0.999):
            kept_sizes.remove(i)
    s = pli_pod(kind, metamodel, threshold, law, dim, n, sizes, deltas, scaled, quadrature)[:, m, kept_sizes]
    d = np.vstack(np.array(deltas))
    d = d[:, m if d.shape[1] > 1 else 0]
    extent = (np.min(sizes[kept_sizes]), np.max(sizes[kept_sizes]), np.min(d), np.max(d))
    fig, ax = plt.subplots()
    ax.imshow(s, origin="lower", extent=extent)
    ax.contour(s, extent=extent)
    return fig, ax


def draw_aggregated(sa, dim, label):
    fig, ax = plt.subplots()
    View(sa.draw(), axes=[ax])
    ax.set_xticklabels(names_of(label, dim))
    return fig, ax


def draw_sobol(sa, order, dim, sizes, label):
    x, y = ot.Sample(0, 1), ot.Sample(0, dim)
    for i, size in enumerate(sizes):
        try:
            if order == "first":
                y.add(sa.getFirstOrderIndices(i))
            else:
                y.add(sa.getTotalOrderIndices(i))
            x.add([size])
        except Exception:
            pass
    fig, ax = plt.subplots()
    for k in range(dim):
        ax.plot(x, y[:, k], label=names_of(label, dim)[k])
    return fig, ax


# ---------------------------------------------------------------- settings
def set_same(value):
    return value


def set_sorted(value):
    return np.sort(np.hstack(np.array(value)))


def set_kronrod(value):
    return ot.GaussKronrod(value)


def set_method(active, method, activation):
    active[method] = activation
    return active


def ok_any(value):
    return True


def ok_bool(value):
    return type(value) is bool


def ok_graph(flag, directory):
    return type(flag) is bool and (directory is None or type(directory) is str)


def ok_probability(value):
    return not (value < 0 or value > 1)


def ok_sizes(value, inputs):
    sizes = np.sort(np.hstack(np.array(value)))
    low, high = inputs[:, 0].getMin()[0], inputs[:, 0].getMax()[0]
    return not (np.max(sizes) > high or np.min(sizes) < low)


def ok_quantile(value):
    q = np.sort(np.hstack(np.array(value)))
    return not (np.max(q) >= 1 or np.min(q) <= 0)


def ok_classifier(value):
    return value == "rf" or value == "svc"


def ok_sobol(value):
    return value in ["Saltelli", "Jansen", "Martinez", "MauntzKucherenko"]


def ok_summary(active, method, activation):
    return method in active and type(activation) is bool


def ok_law(value):
    return isinstance(value, ot.JointDistribution)


def ok_law_dim(value, dim):
    return isinstance(value, ot.JointDistribution) and value.getDimension() == dim


def classifier_defaults(value):
    if value == "svc":
        return [[1.0], ["poly"], [3], [True]]
    return [[100], [None], [2], [0]]


def identity_map(dim):
    zero = [0.0] * dim
    return ot.LinearFunction(zero, zero, ot.IdentityMatrix(dim))


def default_quantile():
    return np.linspace(0.05, 0.98, 21)


def default_forest():
    return [[100], [None], [2], [0]]


def default_methods():
    return {"LinearGauss": True, "LinearBinomial": True, "LinearKernelSmoothing": True, "QuantileRegression": True,
            "PolynomialChaos": True, "Kriging": True}


# ------------------------------------------------------------------ summary
def first_column(inputs):
    return ot.Sample(np.vstack(inputs))[:, 0]


def all_columns(inputs):
    return ot.Sample(np.vstack(inputs))


def summary_normal():
    return ot.NormalFactory()


def summary_kernel():
    return ot.KernelSmoothing()


def several_inputs(inputs):
    return ot.Sample(np.vstack(inputs)).getDimension() > 1
