"""Equivalence of value terms: canonical forms, alignment, identity testing.

`Cmp.diff(spec, code)` returns the places where the value computed by the code
differs from the value prescribed by a rule.  Two values are the same if their
canonical forms are identical, or agree as expressions over uninterpreted
symbols in several random models (polynomial identity testing of the terms; no
code is run).  A difference is *decided* only if every symbol in the differing
parts has a known meaning; otherwise the rule has no verdict for that place.
"""
import hashlib
import math
from fractions import Fraction

from .terms import (T, mk, TRUE, FALSE, NONE, UNDEF, ZERO, ONE, num, string, ext, add, sub, mul, neg, ite, atom, bnot,
                    band, simp, truth, index, subterms, contains, FULL, rebuild, kids, show, assume, restrict_theory,
                    concat, mkmap, atoms_in, subst, implied, _mono_of)

COERCE1 = {"numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.hstack", "numpy.vstack", "numpy.ravel",
           "numpy.atleast_1d", "numpy.atleast_2d", "numpy.squeeze", "numpy.copy", "numpy.flatten", "openturns.Sample",
           "openturns.Point", "builtins.list", "builtins.float", "builtins.tuple", "numpy.float64", "copy.copy",
           "copy.deepcopy", "numpy.column_stack", "numpy.concatenate", "openturns.PointWithDescription"}
COERCE0 = {"copy", "asPoint", "tolist", "flatten", "ravel"}     # methods without argument

# symbols whose meaning is known well enough for a difference in them to be a difference of behaviour
KNOWN_EXT = {"numpy." + n for n in (
    "mean sum min max median std var abs log exp log10 sort clip round floor ceil trunc diff unique linspace arange zeros ones "
    "percentile quantile argmax argmin argsort cumsum prod any all isnan isinf isfinite nan inf pi where intersect1d "
    "maximum minimum sign nan_to_num zeros_like ones_like random.normal random.uniform random.rand random.randn random.choice random.seed eye diag dot var nanmean "
    "full repeat reshape isclose allclose").split()} | \
    {"builtins." + n for n in "abs round int min max len sorted sum float bool str range isinstance type any all".split()} | \
    {"math." + n for n in "log exp floor ceil trunc inf pi isnan sqrt".split()} | \
    {"openturns." + n for n in ("NormalFactory WeibullMinFactory LogNormalFactory UniformFactory KernelSmoothing HistogramFactory BetaFactory "
                                 "WeibullMin LogNormal Student Exponential KFold LARS CorrectedLeaveOneOut PenalizedLeastSquaresAlgorithmFactory "
                                 "LeastSquaresMetaModelSelectionFactory LeastSquaresStrategy HyperbolicAnisotropicEnumerateFunction MaternModel "
                                 "AbsoluteExponential SobolSequence HaltonSequence FaureSequence").split()} | \
    {"sys.float_info.max", "sys.float_info.min", "sys.float_info.epsilon"} | {"min", "max"}
KNOWN_METH = set("getMin getMax computeMean computeMedian computeQuantilePerComponent computeQuantile computeCDF "
                 "computeComplementaryCDF computeVariance computeStandardDeviation getMarginal getRealization getSample "
                 "sort getSize getDimension getMean getParameter getDescription params resid scale fit predict "
                 "getConstant getLinear fittedvalues computeQuantilePerComponent build getLambda shape size T "
                 "getResult getInverse getCoefficients getMetaModel getTransformation getReducedBasis "
                 "getFirstOrderIndices getTotalOrderIndices getAggregatedFirstOrderIndices getAggregatedTotalOrderIndices "
                 "getProbabilityEstimate getVarianceEstimate getStandardDeviation getLowerBound getUpperBound computePDF drawPDF drawCDF "
                 "getConditionalMean getConditionalMarginalVariance getInputSample getOutputSample getInputHistory getOutputHistory "
                 "getOuterSampling getBlockSize getThreshold getRange integrate getReducedBasis getRelativeErrors getResiduals".split())
# heads that can express one another: a difference between two of them is not decided
SUSPECT = [{"numpy.mean", ".computeMean", "numpy.sum", "builtins.sum", "numpy.average", "sum"},
           {"numpy.var", "numpy.std", ".computeVariance", ".computeStandardDeviation", ".computeStandardDeviationPerComponent"},
           {"min", "max", "numpy.min", "numpy.max", "numpy.sort", "builtins.sorted", ".sort", ".getMin", ".getMax",
            "numpy.any", "numpy.all", "builtins.any", "builtins.all", "numpy.argmin", "numpy.argmax", "numpy.argsort", "numpy.maximum", "numpy.minimum", "numpy.clip"}]
ALLOWED_OPS = {"num", "str", "true", "false", "none", "param", "poly", "phi", "lt", "le", "eq", "ne", "truth", "call",
               "attr", "index", "slice", "tuple", "list", "tostr", "concat", "fmt", "len", "range", "seq", "iv", "map",
               "colmap", "cat", "upd", "fill", "after", "pow", "div", "sum", "prod", "land", "lor", "lnot", "not", "called",
               "in", "func", "cls", "lam", "lamv", "dict", "rep", "clsname", "ext", "sym", "sorted", "undef", "join", "spread",
               "items", "ellipsis", "exc", "excpos", "meta", "set", "vcat", "guardmap", "join", "flatmap"}


POINTS = {".getMean", ".getStandardDeviation", ".getSigma", ".getCovariance"}     # one number per component
INFINITE = {"sys.float_info.max", "numpy.inf", "math.inf", "numpy.Inf", "openturns.SpecFunc.MaxScalar"}
UNSET = mk("unset")
_forced_memo = {}


def forced(pc):
    r = _forced_memo.get(pc)
    if r is None:
        if pc.op != "phi":
            r = frozenset()
        else:
            v, h, l = pc.a
            if h is FALSE:
                r = forced(l) | {(v, False)} | set(implied(v, False).items())
            elif l is FALSE:
                r = forced(h) | {(v, True)} | set(implied(v, True).items())
            else:
                r = forced(h) & forced(l)
            r = frozenset(r)
        _forced_memo[pc] = r
    return r


class Cmp:
    MODELS = 6

    def __init__(self, I, st):
        self.I, self.st = I, st
        self._c = {}
        self._lam = {}
        self._fp = {}
        self._envs, self._envd, self.env = {frozenset(): 0}, {0: {}}, 0
        self.pairs = 0
        self._depth = 0

    # ------------------------------------------------------------ functions as values
    def lamify(self, t):
        """replace functions by their extension: lam(n, body)"""
        memo = {}

        def go(x):
            r = memo.get(x)
            if r is None:
                if x.op in ("closure", "bound", "partial") or (x.op == "func" and self.I.func_of(x.a[0]) is not None):
                    r = self.lam_of(x)
                elif any(True for _ in kids(x)):
                    r = rebuild(x, go)
                else:
                    r = x
                memo[x] = r
            return r
        return go(t)

    def lam_of(self, f):
        if f in self._lam:
            return self._lam[f]
        self._lam[f] = f
        I = self.I
        base, skip = f, 0
        if f.op == "partial":
            return f
        if f.op == "closure":
            fi = I.closures[f.a[0]]["fi"]
        else:
            fi = I.func_of(f.a[0])
            skip = 1 if f.op == "bound" else 0
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args][skip:]
        nreq = len(names) - min(len(a.defaults), len(names))
        if a.vararg or a.kwarg or self.I.lam_depth > 4:
            return f
        self.I.lam_depth += 1
        I.quiet += 1
        outer = self.st
        try:
            st = self.st.copy()
            args = [I.ref("ext", st, mk("lamv", self.I.lam_depth, i)) for i in range(max(nreq, 1 if names else 0))]
            v = I.apply(f, args, st)
            self.st = st
            v = self.lamify(simp(I.freeze(v, st), st.pc)) if st.pc is not FALSE else UNDEF
            r = mk("lam", len(args), v)
        finally:
            self.st = outer
            I.quiet -= 1
            self.I.lam_depth -= 1
        self._lam[f] = r
        return r

    def norm(self, v, pc=None):
        t = self.I.freeze(v, self.st)
        t = self.lamify(t)
        t = simp(t, self.st.pc if pc is None else pc)
        return self.canon(t)

    # ------------------------------------------------------------ canonical form
    def canon(self, t):
        r = self._c.get(t)
        if r is None:
            x = rebuild(t, self.canon) if any(True for _ in kids(t)) else t
            for _ in range(4):
                y = self.rw(x)
                if y is x:
                    break
                x = y
            r = x
            self._c[t] = r
            self._c.setdefault(r, r)
        return r

    def dist(self, x, fn):
        if x.op == "phi":
            return ite(atom(x.a[0]), self.dist(x.a[1], fn), self.dist(x.a[2], fn))
        return fn(x)

    def length(self, x):
        if x.op == "phi":
            return self.dist(x, self.length)
        if x.op in ("list", "tuple"):
            return num(len(x.a[0]))
        if x.op in ("map", "colmap"):
            return self.domlen(x.a[0])
        if x.op == "call":
            h = head(x)
            if h == "numpy.linspace" and len(x.a[1]) >= 3:
                return x.a[1][2]
            if h in (".getSample",) and len(x.a[1]) == 1:
                return x.a[1][0]
            if h == "openturns.Sample" and len(x.a[1]) == 2:
                return x.a[1][0]
            if h in (".computeStandardDeviation", ".computeMean", ".getMin", ".getMax", ".computeVariance", ".computeMedian") and not x.a[1]:
                return self.canon(mk("call", mk("attr", x.a[0].a[0], "getDimension"), (), ()))
            if h in ("numpy.sort",):
                return self.length(x.a[1][0])
            if h in ("numpy.max", "numpy.min") and len(x.a[1]) == 2 and x.a[1][1] is num(0) and x.a[1][0].op in ("list", "tuple") and x.a[1][0].a[0]:
                return self.length(x.a[1][0].a[0][0])
        if x.op in ("fill", "upd"):
            return self.length(x.a[0])
        if x.op == "poly":
            # an array and numbers or points, combined element by element
            ls = {self.length(f) for m, _ in x.a[0] for f, e in m if not (f.op == "call" and head(f) in POINTS)
                  and not (f.op == "call" and head(f) == "numpy.ones")}
            ls |= {f.a[1][0].a[0][0] for m, _ in x.a[0] for f, e in m if f.op == "call" and head(f) == "numpy.ones" and len(f.a[1]) == 1
                   and f.a[1][0].op == "tuple" and f.a[1][0].a[0]}
            ls = {l for l in ls if l.op != "phi"} if len(ls) > 1 else ls
            if len(ls) == 1 and any(f.op == "call" and head(f) in POINTS | {"numpy.ones"} for m, _ in x.a[0] for f, e in m):
                return next(iter(ls))
        if x.op == "after" and x.a[1] == "sort":
            return self.length(x.a[0])
        if x.op == "index" and x.a[1].op == "tuple" and x.a[1].a[0] and x.a[1].a[0][0] is FULL:
            return self.length(x.a[0])
        return mk("len", x)

    def domlen(self, d):
        if d.op == "range":
            return d.a[0]
        if d.op == "seq":
            return self.length(d.a[0])
        return mk("len", d)

    def rw(self, t):
        op, a = t.op, t.a
        # naming again what was already named; a copy of a fresh copy
        if op == "after" and len(a) == 3 and a[1] == "setDescription" and a[0].op == "after" and len(a[0].a) == 3 and a[0].a[1] == "setDescription":
            return mk("after", a[0].a[0], *a[1:])
        if op == "call" and head(t) == "openturns.JointDistribution" and len(t.a[1]) == 1 and not t.a[2]:
            c = t.a[1][0]
            while c.op == "after":
                c = c.a[0]
            if c.op == "call" and head(c) == "openturns.JointDistribution":
                return t.a[1][0]
        if op in ("land", "lor"):
            flat = []
            for x in a:
                flat.extend(x.a if x.op == op else (x,))
            return mk(op, *sorted(set(flat), key=lambda x: x.id)) if len(set(flat)) > 1 else flat[0]
        if op == "ext" and a[0] in INFINITE:
            return ext("numpy.inf")       # the largest float and infinity: no data in between
        if op == "call" and a[0].op == "ext" and a[0].a[0] == "builtins.float" and len(a[1]) == 1 and a[1][0].op == "str" and \
                a[1][0].a[0].lower() in ("inf", "+inf", "infinity"):
            return ext("numpy.inf")
        if op == "call":
            f, args, kw = a
            h = head(t)
            if f.op == "ext":
                n = f.a[0]
                if n in COERCE1 and len(args) == 1 and not kw:
                    x = args[0]
                    if x.op in ("list", "tuple") and len(x.a[0]) != 1:
                        if n in ("numpy.hstack", "numpy.concatenate"):
                            return self.cat(x.a[0])
                        if n in ("numpy.vstack", "numpy.column_stack"):
                            if n == "numpy.vstack" and all(y.op in ("num",) for y in x.a[0]):
                                return x
                            return mk("vcat", n, x.a[0])
                        return x if n != "openturns.Sample" else mk("call", f, args, kw)
                    if x.op in ("list", "tuple") and n not in ("builtins.list", "builtins.tuple"):
                        return x.a[0][0]
                    if x.op in ("num", "len") and n == "openturns.Sample":
                        return t
                    if x.op == "concat" and n in ("numpy.hstack", "numpy.array", "numpy.concatenate"):
                        return self.cat(x.a[0])
                    return x
                if n == "numpy.append" and len(args) == 2:
                    return self.cat(args)
                if n in ("numpy.min", "builtins.min", "numpy.amin", "numpy.max", "builtins.max", "numpy.amax", "min", "max") and len(args) == 1 and not kw and (
                        "." in n or is_sort(args[0])):
                    if is_sort(args[0]):
                        args = args[0].a[1]
                    return mk("call", ext(n.rsplit(".", 1)[-1].replace("amin", "min").replace("amax", "max")), args, ())
                if n in ("numpy.any", "numpy.all", "builtins.any", "builtins.all") and len(args) == 1 and not kw:
                    r = extreme(args[0], n.endswith("any"))
                    if r is not None:
                        return r
                if n == "openturns.DistFunc.pNormal" and len(args) == 2 and not kw:
                    one = mk("call", f, args[:1], ())
                    return ite(truth(args[1]), sub(ONE, one), one)
                if n in ("numpy.full",) and len(args) == 2:
                    return t
                if n == "builtins.sorted" and len(args) == 1 and not kw:
                    return mk("call", ext("numpy.sort"), args, ())
                if n in ("numpy.transpose",) and len(args) == 1 and not kw:
                    return mk("attr", args[0], "T")
            if f.op == "attr":
                m = f.a[1]
                if m in COERCE0 and not args and not kw:
                    return f.a[0]
                if m in ("computeComplementaryCDF", "computeSurvivalFunction") and len(args) == 1:
                    return sub(ONE, mk("call", mk("attr", f.a[0], "computeCDF"), args, kw))
                if m == "getDimension" and not args and f.a[0].op == "index" and f.a[0].a[1].op in ("land", "lor", "lt", "le", "lnot"):
                    return mk("call", mk("attr", f.a[0].a[0], m), args, kw)     # selecting rows keeps the columns
                if m == "getDimension" and not args and f.a[0].op == "after" and f.a[0].a[1] in ("add", "erase"):
                    return mk("call", mk("attr", f.a[0].a[0], m), args, kw)     # so does adding or removing some
            return t
        if op == "truth" and a[0].op in ("lt", "le", "eq", "ne"):
            return a[0]
        if op == "index" and is_sort(a[0]) and a[1].op == "num" and a[1].a[0] in (0, -1):
            return mk("call", ext("max" if a[1].a[0] else "min"), a[0].a[1], ())
        if op == "index":
            b, i = a
            if b.op == "call" and head(b) in (".getMin", ".getMax") and i.op == "num" and not b.a[1]:
                x, m = b.a[0].a[0], head(b)[4:].lower()
                if _col(x) is not None and i is ZERO:
                    return mk("call", ext(m), (x,), ())
                return mk("call", ext(m), (index(x, mk("tuple", (FULL, i))),), ())
            if i is FULL:
                return b
            if i.op == "tuple" and len(i.a[0]) == 2 and i.a[0][1] is FULL and i.a[0][0].op != "slice":
                return self.rwidx(b, i.a[0][0])
            if i.op == "tuple" and all(x is FULL for x in i.a[0]):
                return b
            if b.op == "index" and i.op == "iv" and b.a[1].op == "tuple" and len(b.a[1].a[0]) == 2 and b.a[1].a[0][0] is FULL:
                return mk("index", b.a[0], mk("tuple", (i, b.a[1].a[0][1])))
            if b.op == "index" and i.op not in ("tuple", "slice") and b.a[1].op not in ("tuple", "slice", "list", "land", "lor", "lt", "le", "lnot", "cat") \
                    and not isinstance(i.a and i.a[0], str):
                return mk("index", b.a[0], mk("tuple", (b.a[1], i)))
            return t
        if op == "after" and a[1] == "sort" and not a[2]:
            return mk("call", ext("numpy.sort"), (a[0],), ())
        if op == "len":
            return self.length(a[0])
        if op == "attr" and a[1] == "size":
            return self.length(a[0])
        if op == "concat" and not any(x.op in ("str", "tostr", "fmt", "join") for x in a[0]):
            return self.cat(a[0])
        if op == "iv":
            d = a[0]
            if d.op == "seq":
                return mk("iv", mk("range", self.domlen(d), *d.a[1:]))
            return t
        if op == "map":
            d = a[0]
            if d.op == "seq":
                d2 = mk("range", self.domlen(d), *d.a[1:])
                return mk("map", d2, a[1])
            if a[1].op == "index" and a[1].a[1] is mk("iv", d) and self.length(a[1].a[0]) is d.a[0] and not contains(a[1].a[0], mk("iv", d)):
                return a[1].a[0]
            return t
        if op in ("sum", "prod") and a[0].op == "seq":
            d = a[0]
            return mk(op, mk("range", self.domlen(d), *d.a[1:]), a[1])
        if op == "fill":
            init, d, i, e = a
            if d.op == "seq":
                return mk("fill", init, mk("range", self.domlen(d), *d.a[1:]), i, e)
            if d.op == "range":
                iv = mk("iv", d)
                if e.op == "list" and len(e.a[0]) == 1:
                    e = e.a[0][0]
                if i is iv or (i.op == "tuple" and len(i.a[0]) == 2 and i.a[0][0] is iv and i.a[0][1] in (FULL,)):
                    return mk("map", d, e)
                if i.op == "tuple" and len(i.a[0]) == 2 and i.a[0][0] is iv and i.a[0][1] is ZERO and \
                        self.isonecol(init):
                    return mk("map", d, e)
                if i.op == "tuple" and len(i.a[0]) == 2 and i.a[0][0] is FULL and i.a[0][1] is iv:
                    return mk("colmap", d, e)
            return t
        if op == "last" and a[1] is a[2]:
            return a[1]
        if op in ("last", "loop") and a[0].op == "seq":
            return mk(op, mk("range", self.domlen(a[0]), *a[0].a[1:]), *a[1:])
        return t

    def isonecol(self, x):
        return x.op == "call" and head(x) in ("openturns.Sample", "numpy.zeros") and (
            (len(x.a[1]) == 2 and x.a[1][1] is ONE) or
            (len(x.a[1]) == 1 and x.a[1][0].op == "tuple" and len(x.a[1][0].a[0]) == 2 and x.a[1][0].a[0][1] is ONE))

    def rwidx(self, b, i):
        return self.rw(mk("index", b, i)) if True else None

    def cat(self, parts):
        out = []
        for p in parts:
            if p.op in ("list", "tuple"):
                out.extend(p.a[0])
            elif p.op == "cat":
                out.extend(p.a[0])
            else:
                out.append(p)
        if len(out) == 1:
            return out[0]
        return mk("cat", tuple(out))

    # ------------------------------------------------------------ identity testing
    def fp(self, t, model):
        key = (t, model, self.env) if t.gated else (t, model)
        v = self._fp.get(key)
        if v is None:
            v = self._fp1(t, model)
            self._fp[key] = v
        return v

    def under(self, pc):
        """literals that hold wherever pc holds; gates on them are decided in every model"""
        f = forced(pc)
        i = self._envs.get(f)
        if i is None:
            i = self._envs[f] = len(self._envs)
            self._envd[i] = dict(f)
        return i

    def _fp1(self, t, k):
        op, a = t.op, t.a
        if op == "num":
            return float(a[0])
        if op == "poly":
            s = 0.0
            for m, c in a[0]:
                p = float(c)
                for f, e in m:
                    p *= _pw(self.fp(f, k), float(e))
                s += p
            return s
        if op == "pow":
            return _pw(self.fp(a[0], k), self.fp(a[1], k))
        if op == "phi":
            return self.fp(a[1] if self.holds(a[0], k) else a[2], k)
        if op == "call" and a[0].op == "ext" and not a[2]:
            n = a[0].a[0]
            if n == "openturns.DistFunc.pNormal" and len(a[1]) == 1:
                return 0.5 * math.erfc(-self.fp(a[1][0], k) / math.sqrt(2))
            if n == "builtins.abs":
                return abs(self.fp(a[1][0], k))
            if n in ("numpy.exp", "math.exp"):
                return math.exp(max(-50, min(50, self.fp(a[1][0], k))))
            if n in ("numpy.log", "math.log") and len(a[1]) == 1:
                x = abs(self.fp(a[1][0], k))
                return math.log(x) if x > 0 else -1e9
        if op in ("lt", "le"):
            # comparison of (array) values: depends on the difference only up to a positive factor
            x = self.fp(a[0], k)
            return h2f(op, (sig(x),), 0)
        return h2f(op, tuple(self._arg(x, k) for x in a), k)

    def _arg(self, x, k):
        if isinstance(x, T):
            return sig(self.fp(x, k))
        if isinstance(x, tuple):
            return tuple(self._arg(y, k) for y in x)
        return x

    def holds(self, at, k):
        op = at.op
        f = self._envd[self.env].get(at)
        if f is not None:
            return f
        if op == "lt":
            return self.fp(at.a[0], k) < 0
        if op == "le":
            return self.fp(at.a[0], k) <= 0
        if op == "eq" and at.a[1].op in ("num", "str", "none", "true", "false"):
            from .terms import _eq_atoms
            cs = sorted(_eq_atoms.get(at.a[0], {at.a[1]: 0}), key=lambda c: repr(c.a) + c.op)
            pick = int(abs(h2f("pick", (sig(self.fp(at.a[0], k)),), k)) * 1e6) % (len(cs) + 1)
            return pick < len(cs) and cs[pick] is at.a[1]
        return h2f("bit", (sig(self.fp(at, k)),), k) > 0

    def same(self, x, y, pc=None):
        if x is y:
            return True
        self.env = self.under(pc) if pc is not None and (x.gated or y.gated) else 0
        try:
            return all(sig(self.fp(x, k)) == sig(self.fp(y, k)) for k in range(self.MODELS))
        except (OverflowError, ValueError, ZeroDivisionError):
            return False

    # ------------------------------------------------------------ alignment
    def diff(self, spec, code, pc=None, limit=40, binding=None):
        """list of (spec part, code part, path condition); `meta` terms of the spec match any value, the same everywhere"""
        out, seen = [], set()
        pc = self.st.pc if pc is None else pc
        binding = {} if binding is None else binding

        def go(p, t, pc):
            if p is t or len(out) >= limit or pc is FALSE:
                return
            if (p, t, pc) in seen:
                return
            seen.add((p, t, pc))
            self.pairs += 1
            if p.op == "meta":
                b = binding.get(p, UNSET)
                cur = simp(b, pc)
                if cur is UNSET:
                    binding[p] = self._fill_unset(b, ite(pc, t, UNSET))
                elif cur.op == "phi" and contains(cur, UNSET):
                    binding[p] = self._fill_unset(b, ite(pc, t, UNSET))
                    go(self.canon(simp(self._fill_unset(cur, t), pc)), t, pc)
                else:
                    go(cur, t, pc)
                return
            if p.op == "phi" or t.op == "phi":
                ats = [x.a[0] for x in (p, t) if x.op == "phi"]
                at = min(ats, key=lambda v: v.id)
                twins = [x for x in top_atoms(p, t) if x is not at and x.op == at.op and (
                    x.a[1:] == at.a[1:] if x.op in ("exc", "excpos") else self.same(x, at, pc))]
                for val in (True, False):
                    pc2 = restrict_theory(pc, at, val)
                    for x in twins:
                        pc2 = restrict_theory(pc2, x, val)
                    if pc2 is FALSE:
                        continue
                    pcn = band(pc2, atom(at) if val else bnot(atom(at)))
                    p2, t2 = assume(p, at, val), assume(t, at, val)
                    for x in twins:
                        p2, t2 = assume(p2, x, val), assume(t2, x, val)
                    go(self.canon(p2), self.canon(t2), pcn)
                return
            if self.same(p, t, pc):
                return
            if p.op == t.op == "len":
                out.append((p, t, pc))
                return
            if p.op == t.op and p.op not in ("num", "str", "param", "poly", "sym"):
                fp_, ft = flat(p.a), flat(t.a)
                if len(fp_) == len(ft) and all(isinstance(x, T) == isinstance(y, T) and (isinstance(x, T) or x == y) for x, y in zip(fp_, ft)) \
                        and shape(p.a) == shape(t.a):
                    if p.op == "call" and p.a[0].op != t.a[0].op:
                        out.append((p, t, pc))
                        return
                    for x, y in zip(fp_, ft):
                        if isinstance(x, T):
                            go(x, y, pc)
                    return
                out.append((p, t, pc))
                return
            if p.op == "poly" and t.op == "poly":
                dp, dt = dict(p.a[0]), dict(t.a[0])
                rp = [(m, c) for m, c in dp.items() if dt.get(m) != c]
                rt = [(m, c) for m, c in dt.items() if dp.get(m) != c]
                if len(rp) == len(rt) and len(rp) <= 4:
                    # pair the monomials by shape
                    used, pairs = set(), []
                    for m, c in rp:
                        best = None
                        for j, (m2, c2) in enumerate(rt):
                            if j in used or c2 != c or len(m2) != len(m):
                                continue
                            r1 = [fe for fe in m if fe not in m2]
                            r2 = [fe for fe in m2 if fe not in m]
                            if len(r1) == len(r2) == 1 and r1[0][1] == r2[0][1]:
                                sc = 0 if r1[0][0].op == r2[0][0].op else 1
                                if best is None or sc < best[0]:
                                    best = (sc, j, r1[0][0], r2[0][0])
                        if best is None:
                            pairs = None
                            break
                        used.add(best[1])
                        pairs.append(best[2:])
                    if pairs:
                        for x, y in pairs:
                            go(x, y, pc)
                        return
                from .terms import from_monos
                out.append((from_monos(dict(rp)), from_monos(dict(rt)), pc))
                return
            out.append((p, t, pc))
        m = {}
        for k, v in binding.items():
            v = simp(v, pc)
            if not contains(v, UNSET):
                m[k] = v
        spec = self.canon(spec)
        if m:
            spec = self.canon(simp(subst(spec, m), pc))
        go(spec, self.canon(code), pc)
        return [x for x in out if self.feasible(x[2], pc)]

    def feasible(self, ppc, pc):
        return simp(ppc, pc) is not FALSE

    def _fill_unset(self, b, v):
        if b is UNSET:
            return v
        if b.op == "phi":
            return ite(atom(b.a[0]), self._fill_unset(b.a[1], v), self._fill_unset(b.a[2], v))
        return b

    # ------------------------------------------------------------ verdicts
    def decided(self, p, t, pc, vocab):
        """None if the difference (p prescribed, t found) is decided, else the reason why it is not"""
        if soft(p) is soft(t) or self.same(soft(p), soft(t)):
            return "differs only in array shape"
        if p.op == t.op == "len":
            return "the lengths of two arrays"
        if any(x.op == "opaque" for x in subterms(p)):
            return "the prescribed value"
        for x in subterms(t):
            if x in vocab.shared:
                continue
            why = self.unknown_symbol(x, vocab)
            if why:
                return why
        for at in atoms_in(pc):
            for x in subterms(at):
                if x in vocab.shared:
                    continue
                why = self.unknown_symbol(x, vocab)
                if why and at not in atoms_in(self.st.pc):
                    return "condition: " + why
        if not feasible(pc):
            return "the case is contradictory"
        seen = atoms_in(self.st.pc)
        own = [{h for at in atoms_in(pc) if at in side and at not in other and at not in seen for h in heads(at)}
               for side, other in ((vocab.mine, vocab.theirs), (vocab.theirs, vocab.mine))]
        for g in SUSPECT:
            if own[0] & g - own[1] and own[1] & g - own[0]:
                return "condition: equivalent spellings possible (%s)" % ", ".join(sorted((own[0] ^ own[1]) & g))
        hs = {hp for hp in heads(p)}, {ht for ht in heads(t)}
        only = (hs[0] ^ hs[1])
        for g in SUSPECT:
            if len(only & g) >= 2 or (only & g and (hs[0] & g) and (hs[1] & g) and (hs[0] & g) != (hs[1] & g) and p.op != t.op):
                return "equivalent spellings possible (%s)" % ", ".join(sorted(only & g))
        return None

    def unknown_symbol(self, x, vocab):
        if x.op not in ALLOWED_OPS:
            return "construct %s" % x.op
        if x.op == "ext" and x.a[0] not in KNOWN_EXT and x.a[0] not in vocab.heads:
            return "function %s" % x.a[0]
        if x.op == "attr" and x.a[1] not in KNOWN_METH and "." + x.a[1] not in vocab.heads:
            return "attribute %s" % x.a[1]
        if x.op == "after" and "." + x.a[1] not in vocab.heads and x.a[1] not in KNOWN_METH:
            return "effect %s" % x.a[1]
        return None


class Vocab:
    def __init__(self, *terms, mine=(), theirs=()):
        self.shared, self.heads = set(), set()
        self.mine, self.theirs = (set().union(*[atoms_in(x) for x in xs]) if xs else set() for xs in (mine, theirs))
        for t in terms:
            for x in subterms(t):
                self.shared.add(x)
                if x.op == "ext":
                    self.heads.add(x.a[0])
                elif x.op == "attr":
                    self.heads.add("." + x.a[1])
                elif x.op == "after":
                    self.heads.add("." + x.a[1])


def feasible(pc, limit=4000):
    """some path of the condition is consistent, as far as comparisons of the same quantity go"""
    count = [0]

    def walk(t, lits):
        if t is FALSE:
            return False
        if t.op != "phi":
            return True
        count[0] += 1
        if count[0] > limit:
            return True
        for val, sub_ in ((True, t.a[1]), (False, t.a[2])):
            if sub_ is FALSE:
                continue
            l2 = lits + ((t.a[0], val),)
            if consistent(l2) and walk(sub_, l2):
                return True
        return False
    return walk(pc, ())


def consistent(lits):
    """interval reasoning on c*q + k < 0 and q == k, per quantity q"""
    box, types = {}, {}
    for at, val in lits:
        if at.op == "lt":
            d = dict(_mono_of(at.a[0]))
        elif at.op == "eq" and all(x.op not in ("str", "none", "true", "false", "ext", "list", "tuple", "dict") for x in at.a[:2]):
            d = dict(_mono_of(sub(at.a[0], at.a[1])))
        else:
            x = isinstance_pair(at)
            if x is not None:
                types.setdefault(x[0], {})[x[1]] = val
            continue
        k = d.pop((), 0)
        if not d:
            continue
        lead = min(d, key=lambda m: [(f.id, e) for f, e in m])
        c = d[lead]
        q = tuple(sorted(((tuple((f.id, e) for f, e in m), v / c) for m, v in d.items()), key=str))
        bound = -k / c
        lo, hi, ne = box.get(q, ((None, False), (None, False), frozenset()))
        if at.op == "eq":
            if val:
                lo, hi = tighter(lo, (bound, False), 1), tighter(hi, (bound, False), -1)
            else:
                ne = ne | {bound}
        else:
            up = (c > 0) == val                      # q < bound, or q <= bound
            strict = val
            if up:
                hi = tighter(hi, (bound, strict), -1)
            else:
                lo = tighter(lo, (bound, strict), 1)
        if lo[0] is not None and hi[0] is not None:
            if lo[0] > hi[0] or lo[0] == hi[0] and (lo[1] or hi[1] or lo[0] in ne):
                return False
        box[q] = (lo, hi, ne)
    for d in types.values():
        yes = {n for n, v in d.items() if v}
        for n in yes:
            if d.get("int") is False and n == "bool":
                return False
        if len({"int" if n == "bool" else n for n in yes if n in DISJOINT}) > 1:
            return False
    return True


DISJOINT = {"bool", "int", "float", "str", "list", "tuple", "dict"}


def tighter(a, b, sign):
    """the tighter of two bounds (value, strict); sign 1: lower bounds, -1: upper bounds"""
    if a[0] is None:
        return b
    if a[0] == b[0]:
        return (a[0], a[1] or b[1])
    return a if (a[0] - b[0]) * sign > 0 else b


def isinstance_pair(at):
    if at.op == "truth" and at.a[0].op == "call":
        c = at.a[0]
        if c.a[0].op == "ext" and c.a[0].a[0] == "builtins.isinstance" and len(c.a[1]) == 2 and c.a[1][1].op == "ext" and \
                c.a[1][1].a[0].startswith("builtins."):
            return c.a[1][0], c.a[1][1].a[0][9:]
    return None


def is_sort(t):
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "numpy.sort" and len(t.a[1]) == 1 and not t.a[2]


def extreme(t, some):
    """some (every) element of array + constant is negative: so is its least (largest) element + constant"""
    if t.op not in ("lt", "le"):
        return None
    k, arr = ZERO, None
    for m, c in _mono_of(t.a[0]).items():
        if not m:
            k = num(c)
        elif arr is None and len(m) == 1 and m[0][1] == 1:
            arr, sign = m[0][0], c
        else:
            return None
    if arr is None:
        return None
    f = "min" if (sign > 0) == some else "max"
    x = arr.a[1][0] if is_sort(arr) else arr
    return mk(t.op, add(mul(num(sign), mk("call", ext(f), (x,), ())), k))


def top_atoms(*ts):
    out, seen, stack = set(), set(), list(ts)
    while stack:
        x = stack.pop()
        if x.op == "phi" and x not in seen:
            seen.add(x)
            out.add(x.a[0])
            stack += [x.a[1], x.a[2]]
    return out


def head(t):
    f = t.a[0]
    if f.op == "ext":
        return f.a[0]
    if f.op == "attr":
        return "." + f.a[1]
    return "?"


def heads(t):
    return {head(x) for x in subterms(t) if x.op == "call"} | {x.op for x in subterms(t) if x.op in ("sum", "prod")}


def _col(x):
    if x.op == "index" and x.a[1].op == "tuple" and len(x.a[1].a[0]) == 2 and x.a[1].a[0][0] is FULL:
        return x.a[1].a[0][1]
    return None


_soft = {}


def soft(t):
    """shape-insensitive form: x[:, 0], x[0], [x], (x,) collapse to x"""
    r = _soft.get(t)
    if r is None:
        x = rebuild(t, soft) if any(True for _ in kids(t)) else t
        if x.op == "index":
            i = x.a[1]
            if i is ZERO or (i.op == "tuple" and all(k in (ZERO, FULL) for k in i.a[0])):
                x = x.a[0]
        elif x.op in ("list", "tuple") and len(x.a[0]) == 1:
            x = x.a[0][0]
        elif x.op == "vcat":
            x = mk("cat", x.a[1])
        r = x
        _soft[t] = r
    return r


def flat(a):
    out = []
    for x in a:
        if isinstance(x, tuple):
            out.extend(flat(x))
        else:
            out.append(x)
    return out


def shape(a):
    return tuple(shape(x) if isinstance(x, tuple) else 0 for x in a)


def sig(x):
    if isinstance(x, float):
        if x == 0 or abs(x) < 1e-200:
            return "0"
        if x != x or x in (float("inf"), float("-inf")):
            return "nan"
        return "%.7e" % x
    return x


def h2f(op, args, k):
    d = hashlib.blake2b(repr((op, args, k)).encode(), digest_size=8).digest()
    u = int.from_bytes(d, "big") / 2.0 ** 64
    return (u - 0.5) * 4.0


def _pw(x, e):
    if e == int(e) and abs(e) < 60:
        if x == 0 and e < 0:
            return 1e9
        return x ** int(e)
    return abs(x) ** e if x != 0 else 0.0
