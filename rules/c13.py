"""C13: what is computed is a function of the data, the settings and the state of the openturns generator."""
import ast
from sa.terms import NONE, subterms, num
from sa.project import AnalysisBroken
from .common import ALL, ADAPT, HITMISS, KRIGING, CHAOS, LINEAR, QUANT, Mode
from .sens import Sens

# generators that are not openturns': drawing from them (or seeding them) is not governed by the openturns seed
DRAWS = ("numpy.random", "random", "secrets", "uuid", "os.urandom", "os.getrandom", "scipy.stats.qmc")
SEEDED = {"RandomState", "default_rng", "SeedSequence", "PCG64", "MT19937", "Philox", "SFC64", "Random",
          "Sobol", "Halton", "LatinHypercube", "PoissonDisk", "MultivariateNormalQMC", "uuid3", "uuid5"}      # fine with a seed
NAMES = {"Generator", "BitGenerator"}                                                                   # only a type
CLOCK = ("time", "datetime", "os.getpid", "builtins.id", "builtins.hash")
# external functions that draw unless they are told how: name -> keyword
SKLEARN = {"SVC", "NuSVC", "LinearSVC", "LinearSVR", "ExtraTreesClassifier", "ExtraTreesRegressor", "RandomForestClassifier",
           "RandomForestRegressor", "DecisionTreeClassifier", "DecisionTreeRegressor", "ExtraTreeClassifier", "ExtraTreeRegressor",
           "GradientBoostingClassifier", "GradientBoostingRegressor", "AdaBoostClassifier", "AdaBoostRegressor", "BaggingClassifier",
           "BaggingRegressor", "MLPClassifier", "MLPRegressor", "KMeans", "MiniBatchKMeans", "GaussianMixture", "train_test_split",
           "ShuffleSplit", "StratifiedShuffleSplit", "resample", "shuffle", "SGDClassifier", "SGDRegressor", "Perceptron",
           "HistGradientBoostingClassifier", "HistGradientBoostingRegressor", "IsolationForest", "permutation_importance",
           "RandomizedSearchCV"}
SHUFFLED = {"KFold", "StratifiedKFold"}
SCIPY = {"differential_evolution", "dual_annealing", "basinhopping", "bootstrap", "permutation_test", "monte_carlo_test", "goodness_of_fit"}
STATE = ("openturns.RandomGenerator.SetSeed", "openturns.RandomGenerator.SetState")


def check(chk, ctx):
    chk.rule("sources", "no function of the package refers to a random generator other than openturns', or to a clock-like value in a result")
    chk.rule("state", "the package never sets the seed or the state of the openturns generator")
    chk.rule("estimators", "every external estimator that draws is given a fixed random state")
    chk.rule("flow", "no attribute of an object that was run depends on the clock, the process or an address")
    for m in sorted(ctx.project.modules.values(), key=lambda m: m.name):
        if m.name == "spec":
            continue
        chk.guarded("sources/%s" % m.name, module, chk, m)
    for s in ("", "setClassifierType=svc", "setClassifierType=rf"):
        mode = Mode(ctx, HITMISS, None, None, setters=s)
        chk.guarded("estimators/%s" % mode, estimators, chk, mode)
    for c in ALL:
        mode = Mode(ctx, c, "n", "n", setters="")
        chk.guarded("flow/%s" % mode, flow, chk, mode)
    for c, p in (("SobolIndices", KRIGING), ("SobolIndices", CHAOS), ("PLIMean", KRIGING), ("PLIVariance", CHAOS)):
        mode = Sens(ctx, c, p, "")
        chk.guarded("flow/%s" % mode, flow, chk, mode)


def under(name, prefixes):
    return any(name == p or name.startswith(p + ".") for p in prefixes)


class Scope(ast.NodeVisitor):
    """every reference to an external name, with the call it is the function of, per enclosing function"""

    def __init__(self, m):
        self.m, self.stack, self.refs = m, [], []
        self.local = [dict((k, v[1]) for k, v in m.names.items() if v[0] == "ext")]
        self.froms = [(k, v) for k, v in m.names.items()]

    def here(self):
        return ".".join(self.stack) or "<module>"

    def resolve(self, n):
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name):
            return None
        for sc in reversed(self.local):
            if n.id in sc:
                base = sc[n.id]
                return None if base is None else ".".join([base] + parts[::-1])
        if n.id in ("id", "hash") and not parts:
            return "builtins." + n.id
        return None

    def visit_FunctionDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            self.visit(d)
        self.stack.append(n.name)
        a = n.args
        self.local.append({x.arg: None for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]})
        for s in n.body:
            self.visit(s)
        self.local.pop()
        self.stack.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()

    def visit_Lambda(self, n):
        a = n.args
        self.local.append({x.arg: None for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]})
        self.visit(n.body)
        self.local.pop()

    def visit_Import(self, n):
        for a in n.names:
            self.local[-1][a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]

    def visit_ImportFrom(self, n):
        if not n.level:
            for a in n.names:
                self.local[-1][a.asname or a.name] = "%s.%s" % (n.module, a.name)

    def visit_Call(self, n):
        r = self.resolve(n.func)
        if r is not None:
            self.refs.append((r, n.func, n, self.here()))
        elif isinstance(n.func, ast.Attribute):
            if n.func.attr == "rvs":
                self.refs.append((".rvs", n.func, n, self.here()))
            self.visit(n.func)
        for x in n.args + [k.value for k in n.keywords]:
            self.visit(x)

    def visit_Attribute(self, n):
        if isinstance(n.ctx, ast.Load):
            r = self.resolve(n)
            if r is not None:
                self.refs.append((r, n, None, self.here()))
                return
        self.generic_visit(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            r = self.resolve(n)
            if r is not None:
                self.refs.append((r, n, None, self.here()))


def keyword(call, *names):
    """the value of a keyword: a node, None when absent, or '?' when it may be in **kw"""
    for k in call.keywords:
        if k.arg in names:
            return k.value
    if any(k.arg is None for k in call.keywords):
        return "?"
    return None


def fixed(v):
    """a given, not None, seed"""
    return v is not None and not (isinstance(v, ast.Constant) and v.value is None)


def module(chk, m):
    s = Scope(m)
    s.visit(m.tree)
    names = ["%s:%d (%s)" % (m.relpath, node.lineno, fn) for _, node, _, fn in s.refs]
    bad = 0
    for (name, node, call, fn), at in zip(s.refs, names):
        last = name.rsplit(".", 1)[-1]
        why = None
        if under(name, STATE) and call is not None:
            bad += 1
            chk.bad("state/%s.%s" % (m.name, fn), at, "%s changes the generator of the caller" % name)
            continue
        if under(name, DRAWS):
            if last in NAMES or name in DRAWS and call is None:
                continue
            if last in SEEDED and call is not None and (call.args and fixed(call.args[0]) or fixed(keyword(call, "seed", "rng"))):
                continue
            why = "%s is not governed by the openturns generator" % name
        elif call is not None and name.startswith("sklearn.") and last in SKLEARN:
            if not fixed(keyword(call, "random_state")):
                why = "%s draws at random without a given random_state" % name
        elif call is not None and name.startswith("sklearn.") and last in SHUFFLED:
            sh = keyword(call, "shuffle")
            if isinstance(sh, ast.Constant) and sh.value is True and not fixed(keyword(call, "random_state")):
                why = "%s shuffles at random without a given random_state" % name
        elif call is not None and name.startswith("scipy.") and last in SCIPY:
            if not fixed(keyword(call, "seed", "rng", "random_state")):
                why = "%s draws at random without a given seed" % name
        elif name == ".rvs":
            if not fixed(keyword(call, "random_state")):
                why = "rvs() draws from the global generator of numpy"
        if why:
            bad += 1
            chk.bad("sources/%s.%s" % (m.name, fn), at, why)
    if not bad:
        chk.ok("sources/%s" % m.name, m.relpath, "%d external references" % len(s.refs))
        chk.ok("state/%s" % m.name, m.relpath)


def estimators(chk, mode):
    """the random state the estimators get in this configuration is not None"""
    w = mode.world()
    n = 0
    for e in w.I.events:
        if e.kind != "call" or not e.name.startswith("sklearn.") or e.name.rsplit(".", 1)[-1] not in SKLEARN:
            continue
        kw = dict(e.kw or {})
        oid = "estimators/%s/%s:%d" % (mode, e.name, n)
        n += 1
        v = kw.get("random_state")
        if v is None:
            if "**" in kw or any(k is None for k in kw):
                chk.unknown(oid, e.where, "keywords not known")
            else:
                chk.bad(oid, e.where, "%s draws at random without a given random_state" % e.name)
            continue
        v = w.I.freeze(v, w.st)
        if v is NONE:
            chk.bad(oid, e.where, "%s gets random_state=None with these settings" % e.name)
        elif any(x.op == "opaque" for x in subterms(v)):
            chk.unknown(oid, e.where, "random_state not known")
        else:
            chk.ok(oid, e.where)
    if not n:
        chk.unknown("estimators/%s" % mode, mode.cls, "no estimator found")


def flow(chk, mode):
    w = mode.world()
    rid = w.obj.a[0]
    seen = 0
    for key in list(w.st.heap):
        if key[0] != rid or str(key[1]).startswith("$"):
            continue
        t = w.I.freeze(w.st.heap[key], w.st)
        seen += 1
        for x in subterms(t):
            if x.op == "ext" and under(x.a[0], CLOCK + DRAWS):
                if x.a[0].rsplit(".", 1)[-1] in SEEDED | NAMES:
                    continue
                chk.bad("flow/%s.%s" % (mode, key[1]), "%s.%s" % (w.cls.name, key[1]), "depends on %s" % x.a[0])
                break
    if not seen:
        raise AnalysisBroken("no attribute of %s found" % mode)
    chk.ok("flow/%s" % mode, w.cls.name, "%d attributes" % seen)
