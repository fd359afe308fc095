"""Flow-sensitive, interprocedural value-flow analysis (gated value numbering).

Every expression of the analysed package is mapped to a term (terms.py); calls
to the package's own functions, methods, nested functions and classes are
analysed in context; branches are joined with gates; loops are summarised as
maps/fills/folds.  Nothing of the analysed program is executed.
"""
import ast
import string as _string
import sys

from .terms import (T, mk, TRUE, FALSE, NONE, UNDEF, ELLIPSIS, ZERO, ONE, num, string, ext, add, sub, mul, div, neg,
                    power, ite, atom, bnot, band, bor, simp, truth, tuple_, list_, concat, tostr, index, mkmap,
                    cmp_lt, cmp_le, contains, subterms, free_mus, subst, FULL, is_listlike, eq_dist, make, kids, length)
from .project import AnalysisBroken, ClassInfo, FuncInfo

sys.setrecursionlimit(20000)

BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)

# parameter names of external callables whose keyword/positional spelling is normalised
SIGNATURES = {
    "openturns.DistFunc.pNormal": ["x", "tail"],
    "openturns.DistFunc.qBeta": ["p1", "p2", "p", "tail"],
    "numpy.mean": ["a", "axis"], "numpy.sum": ["a", "axis"], "numpy.min": ["a", "axis"], "numpy.max": ["a", "axis"],
    "numpy.var": ["a", "axis"], "numpy.std": ["a", "axis"],
    "numpy.linspace": ["start", "stop", "num"], "numpy.repeat": ["a", "repeats", "axis"],
    "numpy.reshape": ["a", "shape", "order"], "numpy.concatenate": ["arrays", "axis"],
    "scipy.interpolate.interp1d": ["x", "y", "kind"],
    "openturns.PythonFunction": ["n", "p", "func", "func_sample"],
    "openturns.GaussianProcessFitter": ["inputSample", "outputSample", "covarianceModel", "basis"],
    "statsmodels.regression.linear_model.OLS": ["endog", "exog"],
    "statsmodels.regression.quantile_regression.QuantReg": ["endog", "exog"],
    "scipy.optimize.fmin": ["func", "x0"],
}
# numpy functions that also exist as array methods
NP_METHODS = {"mean", "sum", "min", "max", "std", "var", "argsort", "ravel", "reshape", "repeat", "transpose",
              "argmin", "argmax", "all", "any", "cumsum", "prod", "flatten", "squeeze", "round", "diagonal", "dot"}
MUTATORS = {"add", "erase", "run", "sort", "fit", "append", "extend", "insert", "remove", "pop", "clear", "update",
            "reverse", "setDescription", "stack", "enableHistory", "disableHistory", "clearHistory", "clearCache",
            "setdefault", "popitem", "fill", "put", "itemset", "resize", "sort", "partition", "shuffle"}


COMPAT = {"AttributeError", "TypeError", "ImportError", "ModuleNotFoundError"}
# features of the installed libraries (OpenTURNS 1.27) that the package probes with hasattr
FEATURES = {"buildWithGraph", "solveLinearSystemInPlace", "computeStandardDeviation", "getBasis", "getTrendCoefficients"}


CONSUMERS = {"solve", "fmin", "minimize", "brentq", "root_scalar", "minimize_scalar"}


FROZEN = {"ref", "phi", "list", "tuple", "dict", "concat", "map", "upd", "fill", "last", "loop", "after", "spread", "index", "call", "attr"}


def is_count(t):
    """an integer: the number of elements or of components of something"""
    return t.op == "len" or t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("getDimension", "getSize", "getInputDimension",
                                                                                       "getOutputDimension")


class Obj:
    __slots__ = ("kind", "cls", "label")

    def __init__(self, kind, cls=None, label=None):
        self.kind, self.cls, self.label = kind, cls, label


class State:
    __slots__ = ("vars", "heap", "pc")

    def __init__(self, v=None, h=None, pc=TRUE):
        self.vars, self.heap, self.pc = v if v is not None else {}, h if h is not None else {}, pc

    def copy(self, pc=None):
        return State(dict(self.vars), dict(self.heap), self.pc if pc is None else pc)

    def become(self, o):
        self.vars, self.heap, self.pc = o.vars, o.heap, o.pc


class Event:
    __slots__ = ("kind", "name", "recv", "args", "kw", "pc", "loops", "node", "fn", "mod", "stack", "result", "extra")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    @property
    def where(self):
        return "%s:%d (%s)" % (self.mod, getattr(self.node, "lineno", 0), self.fn)


class Raised:
    def __init__(self, st, exc, node, fn, mod):
        self.st, self.exc, self.node, self.fn, self.mod = st, exc, node, fn, mod

    @property
    def where(self):
        return "%s:%d (%s)" % (self.mod, getattr(self.node, "lineno", 0), self.fn)


class Frame:
    def __init__(self, env, func, module, cls, selfv):
        self.env, self.func, self.module, self.cls, self.selfv = env, func, module, cls, selfv
        self.returns, self.loopctl = [], []
        self.closures = False

    @property
    def qual(self):
        return self.func.qualname if self.func else "<module>"


def _leafs_upd(b):
    if b.op == "phi":
        yield from _leafs_upd(b.a[1])
        yield from _leafs_upd(b.a[2])
    elif b.op == "upd":
        yield b.a[2]


class Copier:
    """copies what an iteration made, for another value of its variable"""

    def __init__(self, I, st, dom, m):
        self.I, self.st, self.dom, self.m = I, st, dom, m
        self.memo = {}
        self.varies = {}
        self.heap, self.vars = {}, {}
        for (r, n), v in st.heap.items():
            self.heap.setdefault(r, {})[n] = v
        for (e, n), v in st.vars.items():
            self.vars.setdefault(e, {})[n] = v

    def parts(self, k):
        kind, i = k
        if kind == "ref":
            return self.heap.get(i, {}).values()
        if kind == "env":
            return self.vars.get(i, {}).values()
        c = self.I.closures[i]
        return c["defaults"].values()

    def links(self, v):
        for x in subterms(v):
            if x.op == "ref":
                yield ("ref", x.a[0])
            elif x.op == "closure":
                yield ("closure", x.a[0])

    def varying(self, k):
        """does what k holds, directly or not, depend on the iteration"""
        seen, todo = {k}, [k]
        while todo:
            x = todo.pop()
            if self.varies.get(x):
                return True
            for v in self.parts(x):
                for y in subterms(v):
                    if y in self.m or y.op == "mu" and y.a[0] is self.dom:
                        self.varies[k] = True
                        return True
                for y in self.links(v):
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            if x[0] == "closure":
                e = self.I.closures[x[1]]["env"]
                while e is not None:
                    if ("env", e) not in seen:
                        seen.add(("env", e))
                        todo.append(("env", e))
                    e = self.I.envs.get(e)
        return False

    def term(self, v):
        if any(x.op == "mu" and x.a[0] is self.dom for x in free_mus(v)):
            raise ValueError
        m = dict(self.m)
        for kind, i in set(self.links(v)):
            if self.varying((kind, i)):
                m[mk(kind, i)] = self.copied(kind, i)
        return subst(v, m)

    def copied(self, kind, i):
        if (kind, i) in self.memo:
            return self.memo[(kind, i)]
        I = self.I
        n = I.fresh()
        self.memo[(kind, i)] = r = mk(kind, n)
        if kind == "ref":
            o = I.refs[i]
            I.refs[n] = Obj(o.kind, o.cls, o.label)
            for name, v in self.heap.get(i, {}).items():
                self.st.heap[(n, name)] = self.term(v)
        else:
            c = I.closures[i]
            I.closures[n] = {"fi": c["fi"], "env": self.env(c["env"]), "defaults": {k: self.term(x) for k, x in c["defaults"].items()}}
        return r

    def env(self, e):
        if e is None or not self.varying(("env", e)) and not self.varying_above(e):
            return e
        if ("env", e) in self.memo:
            return self.memo[("env", e)]
        n = self.I.fresh()
        self.memo[("env", e)] = n
        self.I.envs[n] = self.env(self.I.envs.get(e))
        for name, v in self.vars.get(e, {}).items():
            self.st.vars[(n, name)] = self.term(v)
        return n

    def varying_above(self, e):
        e = self.I.envs.get(e)
        return e is not None and (self.varying(("env", e)) or self.varying_above(e))


SAFE = {"len", "format", "append", "print", "isinstance", "range", "enumerate", "str", "list", "tuple", "copy"}


class Budget(Exception):
    pass


class Interp:
    MAXDEPTH = 30

    def __init__(self, project, opaque=(), budget=400000):
        self.p = project
        self.opaque = set(opaque)      # class / function names not analysed in context
        self.envs = {}                 # env id -> parent env id or None
        self.envmod = {}
        self.refs = {}
        self.closures = {}
        self.n = 0
        self.events = []
        self.quiet = 0
        self.trace = []                # names of the library functions called, in order
        self.sinks = [[]]
        self.frames = []
        self.loops = ()
        self.steps = 0
        self.budget = budget
        self.opaque_hits = {}
        self.whiles = 0
        self.stats = {"functions": set(), "calls": 0, "branches": 0, "loops": 0}

    # ------------------------------------------------------------ basics
    lam_depth = 0

    def fresh(self):
        self.n += 1
        return self.n

    def ref(self, kind, st, content=None, cls=None, label=None):
        i = self.fresh()
        self.refs[i] = Obj(kind, cls, label)
        r = mk("ref", i)
        if content is not None:
            st.heap[(i, "$")] = content
        return r

    def freeze(self, v, st, memo=None):
        """value -> pure term (references replaced by their current content)"""
        if v.op not in FROZEN:
            return v
        if memo is None:
            memo = {}
        r = memo.get(v)
        if r is None:
            r = memo[v] = self._freeze(v, st, memo)
        return r

    def _freeze(self, v, st, memo):
        op = v.op
        if op == "ref":
            o = self.refs[v.a[0]]
            if o.kind == "obj":
                return v
            c = st.heap.get((v.a[0], "$"))
            if c is None:
                return v
            if c.gated:
                c = simp(c, st.pc)
            return self.freeze(c, st, memo)
        if op == "phi":
            return ite(atom(v.a[0]), self.freeze(v.a[1], st, memo), self.freeze(v.a[2], st, memo))
        if op in ("list", "tuple"):
            return mk(op, tuple(self.freeze(x, st, memo) for x in v.a[0]))
        if op == "dict":
            return mk(op, tuple((self.freeze(k, st, memo), self.freeze(x, st, memo)) for k, x in v.a[0]))
        if op == "concat":
            return concat(*[self.freeze(x, st, memo) for x in v.a[0]])
        if any(x.op == "ref" for x in subterms(v)):
            m = {x: self.freeze(x, st, memo) for x in subterms(v) if x.op == "ref" and self.refs[x.a[0]].kind != "obj"}
            m = {k: w for k, w in m.items() if w is not k}
            if m:
                return subst(v, m)
        return v

    def content(self, v, st):
        """content of a reference without freezing nested references"""
        if v.op == "ref" and self.refs[v.a[0]].kind != "obj":
            c = st.heap.get((v.a[0], "$"), v)
            return simp(c, st.pc) if c.gated else c
        return v

    def ev_record(self, **k):
        if k["kind"] == "call" and isinstance(k["name"], str):
            self.trace.append(k["name"])
        if self.quiet:
            return None
        fr = self.frames[-1]
        e = Event(pc=k.pop("pc"), loops=self.loops, fn=fr.qual, mod=fr.module.relpath,
                  stack=tuple(f.qual for f in self.frames), **k)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ states
    def merge(self, c, a, b, pc):
        """join of two states under condition c (true -> a)"""
        r = State(pc=pc)
        for da, db, dr, isvar in ((a.vars, b.vars, r.vars, True), (a.heap, b.heap, r.heap, False)):
            if len(da) > len(db):
                keys = list(da) + [k for k in db if k not in da]
            else:
                keys = list(db) + [k for k in da if k not in db]
            for k in keys:
                x, y = da.get(k), db.get(k)
                if x is y:
                    dr[k] = x
                elif x is None or y is None:
                    if not isvar and k[1] == "$":
                        dr[k] = x if y is None else y
                    elif not isvar and not self._known_in(k[0], a if x is None else b):
                        dr[k] = x if y is None else y
                    else:
                        dr[k] = ite(c, x or UNDEF, y or UNDEF)
                else:
                    dr[k] = ite(c, x, y)
        return r

    def _known_in(self, rid, st):
        return (rid, "$born") in st.heap

    def join(self, outs, basepc):
        """fold of [(state, value)], each with absolute pc"""
        outs = [o for o in outs if o[0].pc is not FALSE]
        if not outs:
            return None, NONE
        st, val = outs[-1]
        for s, v in reversed(outs[:-1]):
            c = simp(s.pc, basepc)
            if c is TRUE:          # overlapping (loop exits): keep both under an opaque choice
                c = atom(mk("choice", self.fresh()))
            pc = bor(s.pc, st.pc)
            st2 = self.merge(c, s, st, pc)
            val = ite(c, v, val)
            st = st2
        return st, val

    # ------------------------------------------------------------ running functions
    def call_func(self, fi, args, kw, st, node, selfv=None, env_parent=None, closure=None, star=None):
        """analyse a package function in context; returns its value, updates st"""
        if st.pc is FALSE:
            return UNDEF
        if fi.name in self.opaque or fi.qualname in self.opaque or len(self.frames) > self.MAXDEPTH or \
                sum(1 for f in self.frames if f.func is not None and f.func.node is fi.node) >= 2:
            return self.opaque_call(fi, args, kw, st, node, selfv)
        self.stats["functions"].add(fi.qualname)
        env = self.fresh()
        self.envs[env] = env_parent
        fr = Frame(env, fi, fi.module, fi.cls, selfv)
        bound = self.bind(fi, args, kw, st, selfv, closure, star, env)
        for k, v in bound.items():
            st.vars[(env, k)] = v
        if self.frames:
            self.ev_record(kind="rcall", name=fi.qualname, recv=selfv, args=None,
                           kw={k: self.freeze(v, st) for k, v in bound.items()}, pc=st.pc, node=node, extra=fi)
        self.frames.append(fr)
        base = st.pc
        loops = self.loops
        try:
            body = fi.node.body if isinstance(fi.node.body, list) else None
            if body is None:
                v = self.ev(fi.node.body, st)
                out, val = st.copy(), v
            else:
                s = self.block(body, st.copy())
                outs = list(fr.returns)
                if s is not None:
                    outs.append((s, NONE))
                out, val = self.join(outs, base)
        finally:
            self.frames.pop()
            self.loops = loops
        if out is None:
            st.pc = FALSE
            return UNDEF
        if not fr.closures:
            for k in [k for k in out.vars if k[0] == env]:
                del out.vars[k]
        st.become(out)
        return val

    def bind(self, fi, args, kw, st, selfv, closure, star, env):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound, args, kw = {}, list(args), dict(kw)
        if selfv is not None and names:
            args = [selfv] + args
        if star is not None:                      # unknown *args: element k of the sequence
            k = 0
            while len(args) < len(names):
                if names[len(args)] in kw:
                    break
                args.append(index(star, num(k)))
                k += 1
        for n, v in zip(names, args):
            bound[n] = v
        if a.vararg:
            bound[a.vararg.arg] = tuple_(args[len(names):])
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(x.arg)
            if d is not None:
                defaults[x.arg] = d
        extra = []
        for k, v in kw.items():
            if k in names:
                bound[k] = v
            elif k is not None:
                extra.append((string(k), v))
        if (extra and not a.kwarg or len(args) > len(a.posonlyargs + a.args) and not a.vararg) and env is not None:
            self.ev_record(kind="unbound", name=fi.qualname, recv=None, args=(), kw={}, pc=st.pc, node=fi.node, extra="arguments")
        if a.kwarg:
            bound[a.kwarg.arg] = mk("dict", tuple(extra))
        for n in names:
            if n not in bound:
                if n in defaults:
                    dv = self.closures[closure]["defaults"].get(n) if closure is not None else None
                    bound[n] = dv if dv is not None else self.ev_default(fi, defaults[n], st)
                else:
                    bound[n] = UNDEF
        return bound

    def ev_default(self, fi, node, st):
        env = self.fresh()
        self.envs[env] = None
        self.frames.append(Frame(env, fi, fi.module, fi.cls, None))
        try:
            return self.ev(node, st)
        finally:
            self.frames.pop()

    def opaque_call(self, fi, args, kw, st, node, selfv):
        b = self.bind(fi, args, kw, st, selfv, None, None, None) if True else {}
        fz = {k: self.freeze(v, st) for k, v in b.items()}
        self.ev_record(kind="opaque", name=fi.qualname, recv=selfv, args=None, kw=fz, pc=st.pc, node=node, extra=fi)
        t = mk("call", mk("func", fi.qualname), tuple(), tuple(sorted(((k, v) for k, v in fz.items()), key=lambda kv: kv[0])))
        return self.ref("ext", st, t)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None or st.pc is FALSE:
                return None
            self.steps += 1
            if self.steps > self.budget:
                raise Budget("analysis budget exhausted")
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                continue
            st = m(s, st)
        if st is not None and st.pc is FALSE:
            return None
        return st

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st, stmt=True)
        return st

    def s_Pass(self, s, st):
        return st

    def s_Import(self, s, st):
        env = self.frames[-1].env
        for a in s.names:
            st.vars[(env, a.asname or a.name.split(".")[0])] = ext(a.name if a.asname else a.name.split(".")[0])
        return st

    def s_ImportFrom(self, s, st):
        env, mod = self.frames[-1].env, self.frames[-1].module
        for a in s.names:
            if s.level:
                base = mod.name.split(".")
                if not mod.is_pkg:
                    base = base[:-1]
                base = base[:len(base) - (s.level - 1)]
                target = ".".join(base + ([s.module] if s.module else []))
            else:
                target = s.module
            r = None
            if target in self.p.modules:
                r = self.p.resolve(target, a.name)
            st.vars[(env, a.asname or a.name)] = self.resolved(r) if r else ext("%s.%s" % (target, a.name))
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.store(t, v, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.store(s.target, self.ev(s.value, st), st)
        return st

    def s_AugAssign(self, s, st):
        load = ast.copy_location(_as_load(s.target), s.target)
        cur = self.ev(load, st)
        v = self.ev(s.value, st)
        if cur.op == "ref" and self.refs[cur.a[0]].kind == "list" and isinstance(s.op, ast.Add):
            c, w = self.content(cur, st), self.content(v, st)
            self.set_content(cur, concat(c, w), st, s)
            return st
        r = self.binop(s.op, cur, v, st)
        if cur.op == "ref" and self.refs[cur.a[0]].kind == "ext":
            self.ev_record(kind="aug", name=type(s.op).__name__, recv=self.freeze(cur, st), args=(self.freeze(v, st),), kw={}, pc=st.pc, node=s)
        self.store(s.target, r, st)
        return st

    def s_FunctionDef(self, s, st):
        fr = self.frames[-1]
        st.vars[(fr.env, s.name)] = self.make_closure(s, s.name, st)
        return st

    def make_closure(self, node, name, st):
        fr = self.frames[-1]
        fr.closures = True
        for f in self.frames:
            f.closures = True
        if isinstance(node, ast.Lambda):
            fn = ast.copy_location(ast.FunctionDef(name="<lambda>", args=node.args, body=[ast.copy_location(ast.Return(value=node.body), node)],
                                                   decorator_list=[]), node)
            fi = FuncInfo(fn, fr.module, fr.cls, fr.qual + ".<lambda>")
        else:
            fi = FuncInfo(node, fr.module, fr.cls, fr.qual + "." + name)
        i = self.fresh()
        defaults = {}
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            defaults[n] = self.ev(d, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = self.ev(d, st)
        self.closures[i] = {"fi": fi, "env": fr.env, "defaults": defaults}
        return mk("closure", i)

    def s_ClassDef(self, s, st):
        fr = self.frames[-1]
        fr.closures = True
        ci = ClassInfo(s, fr.module, fr.qual + "." + s.name)
        for b in s.bases:
            v = self.ev(b, st)
            if v.op == "cls":
                ci.bases.append(self.classes[v.a[0]])
            elif v.op == "ext":
                ci.bases.append(v.a[0])
        ci.lexenv = fr.env
        st.vars[(fr.env, s.name)] = self.clsval(ci)
        return st

    classes = {}

    def clsval(self, ci):
        key = ci.qualname + "@" + str(id(ci.node))
        self.classes[key] = ci
        return mk("cls", key)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if st.pc is FALSE:
            return None
        self.frames[-1].returns.append((st, v))
        return None

    def s_Raise(self, s, st):
        v = self.ev(s.exc, st) if s.exc is not None else mk("reraise")
        self.raise_(self.freeze(v, st), s, st)
        return None

    def raise_(self, exc, node, st):
        if self.quiet:
            return
        fr = self.frames[-1]
        self.sinks[-1].append(Raised(st, exc, node, fr.qual, fr.module.relpath))

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        if c is not TRUE:
            bad = st.copy(band(st.pc, bnot(c)))
            if bad.pc is not FALSE:
                self.raise_(mk("call", ext("builtins.AssertionError"), (), ()), s, bad)
        st.pc = band(st.pc, c)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.vars.pop((self.frames[-1].env, t.id), None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                self.set_content(b, mk("after", self.freeze(b, st), "__delitem__", (self.freeze(self.ev(t.slice, st), st),)), st, s)
        return st

    def s_Global(self, s, st):
        return st

    s_Nonlocal = s_Global

    def cond(self, test, st):
        return simp(truth(self.freeze(self.ev(test, st), st)), st.pc)

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        self.stats["branches"] += 1
        if c is TRUE:
            return self.block(s.body, st)
        if c is FALSE:
            return self.block(s.orelse, st)
        a, b = st.copy(band(st.pc, c)), st.copy(band(st.pc, bnot(c)))
        ra, rb = self.block(s.body, a), self.block(s.orelse, b)
        if ra is None:
            return rb
        if rb is None:
            return ra
        return self.merge(c, ra, rb, bor(ra.pc, rb.pc))

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.store(it.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Match(self, s, st):
        subj = self.freeze(self.ev(s.subject, st), st)
        outs, cur = [], st
        for case in s.cases:
            if cur is None:
                break
            p = case.pattern
            c = self._pattern(p, subj, cur)
            if case.guard is not None:
                c = band(c, self.cond(case.guard, cur))
            c = simp(c, cur.pc)
            if c is FALSE:
                continue
            a = cur.copy(band(cur.pc, c))
            r = self.block(case.body, a)
            if r is not None:
                outs.append((r, NONE))
            if c is TRUE:
                cur = None
            else:
                cur = cur.copy(band(cur.pc, bnot(c)))
        if cur is not None:
            outs.append((cur, NONE))
        if not outs:
            return None
        r, _ = self.join(outs, st.pc)
        return r

    def _pattern(self, p, subj, st):
        if isinstance(p, ast.MatchValue):
            return eq_dist(subj, self.freeze(self.ev(p.value, st), st))
        if isinstance(p, ast.MatchSingleton):
            return eq_dist(subj, {None: NONE, True: TRUE, False: FALSE}[p.value])
        if isinstance(p, ast.MatchOr):
            r = FALSE
            for q in p.patterns:
                r = bor(r, self._pattern(q, subj, st))
            return r
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                st.vars[(self.frames[-1].env, p.name)] = subj
            return TRUE
        return atom(mk("opaque", subj, self.fresh()))

    # try ----------------------------------------------------------------
    def s_Try(self, s, st):
        pre = st.copy()
        fr = self.frames[-1]
        nret = len(fr.returns)
        self.sinks.append([])
        calls = [n for b in s.body for n in ast.walk(b) if isinstance(n, (ast.Call, ast.Subscript))]
        snaps, cur, t0 = [], st, len(self.trace)
        for b in s.body:
            if cur is None:
                break
            if any(isinstance(n, (ast.Call, ast.Subscript)) for n in ast.walk(b)):
                snaps.append(cur.copy())
            cur = self.block([b], cur)
        raised = self.sinks.pop()
        results = []
        out = None
        if s.handlers:
            names = tuple(sorted({x.split(".")[-1] for x in self.trace[t0:]} - SAFE))
            htypes = tuple(self._htype(h) for h in s.handlers)
            # handlers for missing features only serve other versions of the libraries
            compat = all(set(t if isinstance(t, tuple) else (t,)) <= COMPAT for t in htypes)
            implicit = bool(calls) and not compat
            ex = atom(mk("exc", names, str(htypes)))
            if cur is not None:
                out = cur
                if implicit:
                    out = cur.copy(band(cur.pc, bnot(ex)))
            remaining = list(raised)
            for i, h in enumerate(s.handlers):
                ins = []
                mine = [r for r in remaining if self._matches(r.exc, htypes[i])]
                remaining = [r for r in remaining if r not in mine]
                for r in mine:
                    ins.append((r.st, NONE))
                if implicit:
                    e2 = ex if len(s.handlers) == 1 else band(ex, atom(mk("exc", names, htypes[i], i))) if i < len(s.handlers) - 1 else ex
                    start = pre
                    if len(snaps) > 1:
                        start = self.merge(atom(mk("excpos", names)), snaps[-1], pre, pre.pc)
                    hs = start.copy(band(pre.pc, e2))
                    if hs.pc is not FALSE:
                        ins.append((hs, NONE))
                if not ins:
                    continue
                hst, _ = self.join(ins, pre.pc)
                if hst is None:
                    continue
                if h.name:
                    hst.vars[(fr.env, h.name)] = mk("exception", names)
                r = self.block(h.body, hst)
                if r is not None:
                    results.append((r, NONE))
            for r in remaining:
                self.sinks[-1].append(r)
        else:
            out = cur
            if not s.finalbody:
                self.sinks[-1].extend(raised)
        if out is not None and s.orelse:
            out = self.block(s.orelse, out)
        if out is not None:
            results.append((out, NONE))
        res = None
        if results:
            res, _ = self.join(results, pre.pc)
        if s.finalbody:
            new = fr.returns[nret:]
            del fr.returns[nret:]
            for rs, rv in new:
                r = self.block(s.finalbody, rs.copy())
                if r is not None:
                    fr.returns.append((r, rv))
            if not s.handlers:
                for rz in raised:
                    r = self.block(s.finalbody, rz.st.copy())
                    if r is not None and not self.quiet:
                        self.sinks[-1].append(Raised(r, rz.exc, rz.node, rz.fn, rz.mod))
            if res is not None:
                # an exception of unknown origin also runs the final block; state effects are the same
                res = self.block(s.finalbody, res)
        return res

    s_TryStar = s_Try

    def _htype(self, h):
        if h.type is None:
            return "*"
        if isinstance(h.type, ast.Tuple):
            return tuple(getattr(e, "id", getattr(e, "attr", "?")) for e in h.type.elts)
        return getattr(h.type, "id", getattr(h.type, "attr", "?"))

    def _matches(self, exc, ht):
        if ht in ("*", "Exception", "BaseException"):
            return True
        n = exc.a[0].a[0].split(".")[-1] if exc.op == "call" and exc.a[0].op == "ext" else (exc.a[0].split(".")[-1] if exc.op == "ext" else "?")
        return n == ht or (isinstance(ht, tuple) and n in ht)

    # loops ----------------------------------------------------------------
    def s_Break(self, s, st):
        if self.frames[-1].loopctl:
            self.frames[-1].loopctl[-1][0].append(st)
        return None

    def s_Continue(self, s, st):
        if self.frames[-1].loopctl:
            self.frames[-1].loopctl[-1][1].append(st)
        return None

    def concrete(self, v, st):
        """list of element values when the iterable is statically known, else None"""
        c = self.content(v, st)
        if c.op in ("list", "tuple") and len(c.a[0]) <= 40 and not any(x.op == "spread" for x in c.a[0]):
            return list(c.a[0])
        if c.op == "dict" and len(c.a[0]) <= 40:
            return [k for k, _ in c.a[0]]
        if c.op == "items":
            return list(c.a[0])
        if c.op == "range" and all(x.op == "num" for x in c.a):
            r = range(int(c.a[0].a[0]), int(c.a[1].a[0]), int(c.a[2].a[0]))
            if len(r) <= 12:
                return [num(i) for i in r]
        if c.op == "enumerate":
            e = self.concrete(c.a[0], st)
            if e is not None:
                return [tuple_((add(num(i), c.a[1]), x)) for i, x in enumerate(e)]
        if c.op == "zip":
            es = [self.concrete(x, st) for x in c.a[0]]
            if es and all(e is not None for e in es):
                return [tuple_(t) for t in zip(*es)]
        if c.op == "reversed":
            e = self.concrete(c.a[0], st)
            if e is not None:
                return e[::-1]
        return None

    def domain(self, v, st):
        """(dom, element term) of a symbolic iterable"""
        c = self.content(v, st)
        if c.op == "range":
            lo, hi, step = c.a
            lo, hi, step = (self.freeze(x, st) for x in (lo, hi, step))
            if lo is ZERO and step is ONE:
                if hi.op == "len":
                    dom = self._dom("seq", hi.a[0])
                else:
                    dom = self._dom("range", hi)
                return dom, mk("iv", dom)
            dom = self._dom("range", div(sub(hi, lo), step)) if step.op == "num" else self._dom("range3", lo, hi, step)
            return dom, add(lo, mul(step, mk("iv", dom)))
        if c.op == "enumerate":
            dom, e = self.domain(c.a[0], st)
            return dom, tuple_((add(mk("iv", dom), self.freeze(c.a[1], st)), e))
        if c.op == "zip":
            xs = c.a[0]
            doms = [self.domain(x, st) for x in xs]
            dom = doms[0][0]
            for d, e in doms:
                if d.op == "seq":
                    dom = d
                    break
            iv = mk("iv", dom)
            els = []
            for x, (d, e) in zip(xs, doms):
                els.append(subst(e, {mk("iv", d): iv}))
            return dom, tuple_(els)
        if c.op == "items":
            f = self.freeze(c, st)
            dom = self._dom("seq", f)
            return dom, index(f, mk("iv", dom))
        f = self.freeze(v, st)
        if f.op == "map":
            # iterating over a mapped sequence iterates over its domain
            dom = f.a[0]
            if any(d is dom for d in self.loops):
                d2 = self._dom(*((dom.op,) + dom.a[:1]))
                return d2, subst(f.a[1], {mk("iv", dom): mk("iv", d2)})
            return dom, f.a[1]
        if f.op == "call" and f.a[0].op == "ext" and f.a[0].a[0] == "numpy.arange" and len(f.a[1]) == 1:
            dom = self._dom("range", f.a[1][0])
            return dom, mk("iv", dom)
        dom = self._dom("seq", f)
        return dom, index(f, mk("iv", dom))

    def _dom(self, kind, *a):
        d = mk(kind, *a)
        k = 0
        while any(x is d for x in self.loops):
            k += 1
            d = mk(kind, *(a + (k,)))
        return d

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        self.stats["loops"] += 1
        elems = self.concrete(it, st)
        fr = self.frames[-1]
        if elems is not None:
            breaks_all = []
            for e in elems:
                if st is None:
                    break
                self.store(s.target, e, st)
                fr.loopctl.append(([], []))
                r = self.block(s.body, st)
                br, co = fr.loopctl.pop()
                outs = [(x, NONE) for x in co] + ([(r, NONE)] if r is not None else [])
                st = self.join(outs, st.pc)[0] if outs else None
                breaks_all += br
            if st is not None and s.orelse:
                st = self.block(s.orelse, st)
            if breaks_all:
                outs = [(x, NONE) for x in breaks_all] + ([(st, NONE)] if st is not None else [])
                st = self.join(outs, TRUE)[0]
            return st
        dom, elem = self.domain(it, st)
        return self.loop(dom, lambda x: self.store(s.target, elem, x), None, s.body, s.orelse, st, s)

    def s_While(self, s, st):
        self.stats["loops"] += 1
        fr = self.frames[-1]
        breaks_all = []
        if not isinstance(s.test, ast.Constant):
            for _ in range(4):       # a loop over constants is unrolled
                if st is None or self.cond(s.test, st) is not TRUE:
                    break
                fr.loopctl.append(([], []))
                r = self.block(s.body, st)
                br, co = fr.loopctl.pop()
                outs = [(x, NONE) for x in co] + ([(r, NONE)] if r is not None else [])
                st = self.join(outs, st.pc)[0] if outs else None
                breaks_all += br
        if st is None or self.cond(s.test, st) is FALSE:
            if st is not None and s.orelse:
                st = self.block(s.orelse, st)
            if breaks_all:
                outs = [(x, NONE) for x in breaks_all] + ([(st, NONE)] if st is not None else [])
                st = self.join(outs, TRUE)[0]
            return st
        if breaks_all:
            r = self.loop_while(s, st)
            outs = [(x, NONE) for x in breaks_all] + ([(r, NONE)] if r is not None else [])
            return self.join(outs, TRUE)[0]
        return self.loop_while(s, st)

    def loop_while(self, s, st):
        self.whiles += 1
        dom = mk("while", self.whiles, self.frames[-1].qual)
        return self.loop(dom, None, s.test, s.body, s.orelse, st, s)

    def loop(self, dom, bindfn, test, body, orelse, st, node):
        fr = self.frames[-1]
        pre = st
        changed = {}
        if test is not None:
            c0 = self.cond(test, pre)
            if c0 is FALSE:
                return pre
        nret, nsink, nev = len(fr.returns), len(self.sinks[-1]), len(self.events)
        ntr = len(self.trace)

        def one(s):
            # a pass made with too few changing variables leaves nothing behind
            del fr.returns[nret:]
            del self.sinks[-1][nsink:]
            del self.events[nev:]
            del self.trace[ntr:]
            fr.loopctl.append(([], []))
            saved = self.loops
            self.loops = self.loops + (dom,)
            try:
                if bindfn:
                    bindfn(s)
                if test is not None:
                    c = self.cond(test, s)
                    s.pc = band(s.pc, c)
                    if s.pc is FALSE:
                        s.pc = pre.pc
                r = self.block(body, s)
            finally:
                br, co = fr.loopctl.pop()
                self.loops = saved
            outs = [(x, NONE) for x in co] + ([(r, NONE)] if r is not None else [])
            o = self.join(outs, pre.pc)[0] if outs else None
            return o, br
        # find the keys the body changes
        scopes = {f.env for f in self.frames} | {k[0] for k in pre.vars}
        for _ in range(4):
            s = pre.copy()
            self.put_mu(s, changed, dom)
            base = s.copy()
            o, br = one(s)
            new = {}
            for src in ([o] if o is not None else []) + br:
                for which, d0, d1 in (("v", base.vars, src.vars), ("h", base.heap, src.heap)):
                    for k, v in d1.items():
                        if d0.get(k) is not v and (which, k) not in changed:
                            if which == "h" and not self._exists(k[0], pre):
                                continue
                            if which == "v" and k[0] not in scopes:
                                continue
                            new[(which, k)] = True
            if not new:
                break
            changed.update(new)
        res = pre.copy()
        for src in br + ([o] if o is not None else []):
            for k, v in src.heap.items():
                if k not in res.heap and not self._exists(k[0], pre):
                    res.heap[k] = v
            # variables of the scopes opened by one pass, which the functions made there may still read
            for k, v in src.vars.items():
                if k not in res.vars and k[0] not in scopes:
                    res.vars[k] = v
        system = {}
        pending = []
        for (which, k) in changed:
            d0 = pre.vars if which == "v" else pre.heap
            init = d0.get(k, UNDEF)
            mu = self.mu_of(k, dom)
            vals = []
            for src in ([o] if o is not None else []) + br:
                d1 = src.vars if which == "v" else src.heap
                if k in d1 and d1[k] not in vals:
                    vals.append(d1[k])
            if len(vals) == 1:
                system[mu] = (self.freeze(init, pre) if init is not UNDEF else init, self._deref(vals[0], o if o is not None else pre, pre))
            pending.append((which, k, init, mu, vals))
        for which, k, init, mu, vals in pending:
            if mu in system:
                joint = self.joint(dom, mu, system)
                if joint is not None:
                    (res.vars if which == "v" else res.heap)[k] = joint
                    continue
            val = self.close(dom, init, mu, vals, o if o is not None else (br[0] if br else pre), pre)
            (res.vars if which == "v" else res.heap)[k] = val
        res.pc = pre.pc
        if orelse:
            return self.block(orelse, res)
        return res

    def joint(self, dom, mu, system):
        """variables defined by each other across iterations: the system of equations, named by order of appearance"""
        order, seen = [mu], {mu}
        if mu in system and all(x is mu or x.a[0] is not dom for x in free_mus(system[mu][1])):
            return None
        i = 0
        while i < len(order):
            nxt = system.get(order[i])
            if nxt is None:
                return None
            for x in _preorder(nxt[1]):
                if x.op == "mu" and x.a[0] is dom and x.a[1] != "#" and x not in seen:
                    seen.add(x)
                    order.append(x)
            i += 1
        if len(order) == 1 or any(system[m][1].op == "ref" for m in order):
            return None
        k = 1 + max([x.a[2] for m in order for x in subterms(system[m][1]) if x.op == "mu" and x.a[1] == "#"], default=0)
        name = {m: mk("mu", dom, "#", k + j) for j, m in enumerate(order)}
        return mk("loop", dom, mk("list", tuple(system[m][0] for m in order)),
                  mk("list", tuple(subst(system[m][1], name) for m in order)))

    def _exists(self, rid, st):
        return (rid, "$") in st.heap or (rid, "$born") in st.heap

    def mu_of(self, k, dom):
        return mk("mu", dom, str(k[1]), k[0])

    def put_mu(self, s, changed, dom):
        for (which, k) in changed:
            (s.vars if which == "v" else s.heap)[k] = self.mu_of(k, dom)

    def close(self, dom, init, mu, vals, st, pre):
        if not vals:
            return init
        vals = [self._deref(v, st, pre) for v in vals]
        if len(vals) == 1:
            nxt = _merge_upd(vals[0])
            initf = init
            if nxt is mu:
                return init
            mus = {x for x in free_mus(nxt) if x.a[0] is dom}
            if not mus:
                return mk("last", dom, self.freeze(init, pre) if init is not UNDEF else init, nxt)
            if mus == {mu}:
                rest = _appended(nxt, mu)
                if rest is not None:
                    if rest.op == "list" and len(rest.a[0]) == 1:
                        return concat(self.freeze(init, pre), mkmap(dom, rest.a[0][0]))
                    return concat(self.freeze(init, pre), mk("flatmap", dom, rest))
                if nxt.op == "upd" and nxt.a[0] is mu and not contains(nxt.a[1], mu) and not contains(nxt.a[2], mu):
                    return mk("fill", self.freeze(init, pre), dom, nxt.a[1], nxt.a[2])
                if nxt.op == "after" and nxt.a[0] is mu and nxt.a[1] in ("add",) and not any(contains(x, mu) for x in nxt.a[2]):
                    return mk("after", self.freeze(init, pre), "add", (mkmap(dom, nxt.a[2][0]),))
                d = sub(nxt, mu)
                if not contains(d, mu):
                    return add(self.freeze(init, pre), mk("sum", dom, d))
                q = div(nxt, mu)
                if not contains(q, mu):
                    return mul(self.freeze(init, pre), mk("prod", dom, q))
            if mus == {mu}:
                nxt = _anon(nxt, mu, dom)
            return mk("loop", dom, self.freeze(initf, pre) if initf is not UNDEF else initf, nxt)
        return mk("loop", dom, self.freeze(init, pre) if init is not UNDEF else init, mk("alts", tuple(vals)))

    def _deref(self, v, st, pre):
        """freeze references created inside the loop body (keep objects and outer references)"""
        if v.op == "ref" and self._exists(v.a[0], pre):
            return v
        return self.freeze(v, st)

    # ------------------------------------------------------------ stores
    def store(self, t, v, st):
        if isinstance(t, ast.Name):
            env = self.frames[-1].env
            st.vars[(env, t.id)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            c = self.content(v, st)
            if c.op == "phi" and v.op != "phi":
                pass
            n = len(t.elts)
            starpos = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if starpos and c.op in ("tuple", "list"):
                i = starpos[0]
                xs = list(c.a[0])
                k = len(xs) - (n - 1)
                for e, x in zip(t.elts[:i], xs[:i]):
                    self.store(e, x, st)
                self.store(t.elts[i].value, list_(xs[i:i + k]), st)
                for e, x in zip(t.elts[i + 1:], xs[i + k:]):
                    self.store(e, x, st)
                return
            for i, e in enumerate(t.elts):
                self.store(e.value if isinstance(e, ast.Starred) else e, self.getitem(v, num(i), st), st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr_(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(t, v, st)
        elif isinstance(t, ast.Starred):
            self.store(t.value, v, st)

    def setattr_(self, o, name, v, st, node, cond=TRUE):
        if o.op == "phi":
            c = atom(o.a[0])
            self.setattr_(o.a[1], name, v, st, node, band(cond, c))
            self.setattr_(o.a[2], name, v, st, node, band(cond, bnot(c)))
            return
        if o.op == "ref" and self.refs[o.a[0]].kind == "obj":
            cls = self.refs[o.a[0]].cls
            for c in cls.mro():
                if name in c.psetters:
                    self.call_func(c.psetters[name], [v], {}, st, node, selfv=o)
                    return
            key = (o.a[0], name)
            if cond is TRUE:
                st.heap[key] = v
            else:
                st.heap[key] = ite(cond, v, st.heap.get(key, UNDEF))
            self.ev_record(kind="setattr", name=name, recv=o, args=(self.freeze(v, st),), kw={}, pc=st.pc, node=node)
            return
        if o.op == "ref":
            self.set_content(o, mk("after", self.freeze(o, st), "." + name, (self.freeze(v, st),)), st, node)
        self.ev_record(kind="extattr", name=name, recv=self.freeze(o, st), args=(self.freeze(v, st),), kw={}, pc=st.pc, node=node)

    def set_content(self, r, content, st, node, cond=TRUE):
        if r.op == "phi":
            c = atom(r.a[0])
            self.set_content(r.a[1], content, st, node, band(cond, c))
            self.set_content(r.a[2], content, st, node, band(cond, bnot(c)))
            return
        if r.op == "ref":
            k = (r.a[0], "$")
            st.heap[k] = content if cond is TRUE else ite(cond, content, st.heap.get(k, UNDEF))

    def setitem(self, t, v, st):
        b = self.ev(t.value, st)
        i = self.ev(t.slice, st)
        self.setitem_(b, i, v, st, t)

    def setitem_(self, b, i, v, st, t):
        fi, fv = self.freeze(i, st), self.freeze(v, st)
        self.ev_record(kind="setitem", name="[]", recv=self.freeze(b, st), args=(fi, fv), kw={}, pc=st.pc, node=t)
        if b.op in ("ref",):
            c = self.content(b, st)
            k = self.refs[b.a[0]].kind
            if c.op == "list" and fi.op == "num" and -len(c.a[0]) <= fi.a[0] < len(c.a[0]):
                xs = list(c.a[0])
                xs[int(fi.a[0])] = v
                self.set_content(b, list_(xs), st, t)
            elif c.op == "dict" and fi.op in ("str", "num", "true", "false", "none"):
                kv = [(kk, vv) for kk, vv in c.a[0]]
                for j, (kk, vv) in enumerate(kv):
                    if kk is fi:
                        kv[j] = (kk, v)
                        break
                else:
                    kv.append((fi, v))
                self.set_content(b, mk("dict", tuple(kv)), st, t)
            else:
                self.set_content(b, _upd(self.freeze(b, st), fi, fv), st, t)
        elif b.op == "phi":
            for leafref in {x for x in subterms(b) if x.op == "ref"}:
                self.set_content(leafref, mk("upd", self.freeze(leafref, st), fi, fv), st, t, _cond_of(b, leafref))
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Subscript):
            # x[i][j] = v on an untracked inner object: update the outer one at the combined index
            outer = self.ev(t.value.value, st)
            j = self.freeze(self.ev(t.value.slice, st), st)
            if outer.op == "ref":
                self.set_content(outer, mk("upd", self.freeze(outer, st), mk("path", j, fi), fv), st, t)

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, stmt=False):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return mk("opaque", type(n).__name__, self.fresh())
        if isinstance(n, ast.Call):
            return m(n, st, stmt)
        v = m(n, st)
        return v

    def e_Constant(self, n, st):
        v = n.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, (int, float)):
            if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
                return ext("builtins.float(%r)" % v)
            return num(v)
        if isinstance(v, str):
            return string(v)
        if v is Ellipsis:
            return ELLIPSIS
        return mk("const", repr(v))

    def resolved(self, r):
        if r[0] == "func":
            return mk("func", r[1].qualname)
        if r[0] == "cls":
            return self.clsval(r[1])
        if r[0] == "ext":
            return ext(r[1])
        if r[0] == "mod":
            return mk("module", r[1].name)
        return None

    def lookup(self, name, st):
        env = self.frames[-1].env
        while env is not None:
            v = st.vars.get((env, name))
            if v is not None:
                return v
            env = self.envs.get(env)
        return None

    def e_Name(self, n, st):
        v = self.lookup(n.id, st)
        if v is not None:
            return self.defined(v, n.id, st, n)
        fr = self.frames[-1]
        # assigned somewhere in this function -> unbound local
        if fr.func is not None and n.id in _locals_of(fr.func.node) and n.id not in _declared_global(fr.func.node):
            self.ev_record(kind="unbound", name=n.id, recv=None, args=(), kw={}, pc=st.pc, node=n, extra="local")
            return mk("opaque", n.id, 0)
        r = self.p.resolve(fr.module.name, n.id)
        if r is not None:
            if r[0] == "const":
                return self.modconst(r[1], n.id, r[2], st)
            return self.resolved(r)
        if n.id in BUILTINS:
            return ext("builtins." + n.id)
        if n.id == "__class__" and fr.cls is not None:
            return self.clsval(fr.cls)
        self.ev_record(kind="unbound", name=n.id, recv=None, args=(), kw={}, pc=st.pc, node=n, extra="global")
        return mk("opaque", n.id, 0)

    def modconst(self, mod, name, node, st):
        env = self.fresh()
        self.envs[env] = None
        self.frames.append(Frame(env, None, mod, None, None))
        try:
            return self.ev(node, st)
        finally:
            self.frames.pop()

    def defined(self, v, name, st, node, what="local"):
        if v.gated and st.pc is not TRUE:
            v = simp(v, st.pc)
        if v is UNDEF:
            self.ev_record(kind="unbound", name=name, recv=None, args=(), kw={}, pc=st.pc, node=node, extra=what)
            return mk("opaque", name, 0)
        if v.op == "phi" and _has_undef(v):
            cond = _undef_cond(v)
            self.ev_record(kind="unbound", name=name, recv=None, args=(), kw={}, pc=band(st.pc, cond), node=node, extra=what)
            v = _strip_undef(v)
        return v

    def e_Tuple(self, n, st):
        return tuple_(self.elts(n.elts, st))

    def elts(self, elts, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                c = self.concrete(v, st)
                if c is not None:
                    out.extend(c)
                else:
                    out.append(mk("spread", self.freeze(v, st)))
            else:
                out.append(self.ev(e, st))
        return out

    def e_List(self, n, st):
        xs = self.elts(n.elts, st)
        if any(x.op == "spread" for x in xs):
            parts, cur = [], []
            for x in xs:
                if x.op == "spread":
                    if cur:
                        parts.append(list_(cur))
                    cur = []
                    parts.append(x.a[0])
                else:
                    cur.append(x)
            if cur:
                parts.append(list_(cur))
            return self.ref("list", st, concat(*([list_([])] + parts)))
        return self.ref("list", st, list_(xs))

    def e_Set(self, n, st):
        return mk("set", tuple(self.freeze(x, st) for x in self.elts(n.elts, st)))

    def e_Dict(self, n, st):
        kv = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.content(self.ev(v, st), st)
                if d.op == "dict":
                    kv.extend(d.a[0])
                continue
            kk = self.freeze(self.ev(k, st), st)
            kv.append((kk, self.ev(v, st)))
        return self.ref("dict", st, mk("dict", tuple(kv)))

    def e_Lambda(self, n, st):
        return self.make_closure(n, "<lambda>", st)

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        if c is TRUE:
            return self.ev(n.body, st)
        if c is FALSE:
            return self.ev(n.orelse, st)
        a, b = st.copy(band(st.pc, c)), st.copy(band(st.pc, bnot(c)))
        va, vb = self.ev(n.body, a), self.ev(n.orelse, b)
        if a.pc is FALSE:
            st.become(b)
            return vb
        if b.pc is FALSE:
            st.become(a)
            return va
        st.become(self.merge(c, a, b, bor(a.pc, b.pc)))
        return ite(c, va, vb)

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0], st)
        conds = []
        basepc = st.pc
        for w in n.values[1:]:
            c = simp(truth(self.freeze(v, st)), st.pc)
            go = c if isand else bnot(c)
            if go is FALSE:
                break
            if go is TRUE:
                v = self.ev(w, st)
                continue
            a = st.copy(band(st.pc, go))
            x = self.ev(w, a)
            if a.pc is FALSE:
                continue
            b = st.copy(band(st.pc, bnot(go)))
            merged = self.merge(go, a, b, bor(a.pc, b.pc))
            st.become(merged)
            # value: in boolean use only the truth matters
            if v.op in ("phi", "true", "false", "lt", "le", "eq", "ne", "in", "truth"):
                v = ite(go, self._asbool(x, st), self._asbool(v, st))
            else:
                v = ite(go, x, v)
        return v

    def _asbool(self, x, st):
        if x.op in ("lt", "le", "eq", "ne", "in", "truth", "not"):
            return truth(x)
        return x

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            return bnot(simp(truth(self.freeze(v, st)), st.pc))
        f = self.freeze(v, st)
        if isinstance(n.op, ast.USub):
            return self.distr(neg, f)
        if isinstance(n.op, ast.Invert):
            return mk("lnot", f)
        return v

    def distr(self, fn, *xs):
        """apply an arithmetic constructor"""
        return fn(*xs)

    def e_BinOp(self, n, st):
        return self.binop(n.op, self.ev(n.left, st), self.ev(n.right, st), st)

    def binop(self, op, a, b, st):
        x, y = self.freeze(a, st), self.freeze(b, st)
        if isinstance(op, ast.Add):
            if x.op == "phi" and any(is_listlike(l) for l in _leafs(x)):
                return ite(atom(x.a[0]), self.binop(op, x.a[1], y, st), self.binop(op, x.a[2], y, st))
            if is_listlike(x) or is_listlike(y):
                if x.op in ("list", "tuple") and len(x.a[0]) == 1 and not is_listlike(y) and y.op not in ("rep", "loop", "mu"):
                    return add(x.a[0][0], y)
                if y.op in ("list", "tuple") and len(y.a[0]) == 1 and not is_listlike(x) and x.op not in ("rep", "loop", "mu"):
                    return add(x, y.a[0][0])
                if x.op == "list" or x.op == "map" or (x.op == "concat" and x.a[0][0].op in ("list", "map")):
                    return self.ref("list", st, concat(self.content(a, st) if a.op == "ref" else a, self.content(b, st) if b.op == "ref" else b))
                return concat(x, y)
            if x.op in ("rep",) or y.op in ("rep",):
                return concat(x, y)
            return add(x, y)
        if isinstance(op, ast.Sub):
            return sub(*self._unwrap1(x, y))
        if isinstance(op, ast.Mult):
            if x.op in ("list", "str", "tuple") and not (x.op == "list" and len(x.a[0]) == 1 and y.op == "call" and not is_count(y)):
                return self._rep(x, y, st)
            if y.op in ("str", "tuple"):
                return self._rep(y, x, st)
            if y.op == "list" and (x.op == "num" or is_count(x)):
                return self._rep(y, x, st)
            return mul(*self._unwrap1(x, y))
        if isinstance(op, ast.Div):
            return div(*self._unwrap1(x, y))
        if isinstance(op, ast.Pow):
            return power(x, y)
        if isinstance(op, ast.Mod):
            if x.op == "str":
                return self.percent(x.a[0], y)
            return mk("mod", x, y)
        if isinstance(op, ast.BitAnd):
            return land(x, y)
        if isinstance(op, ast.BitOr):
            return lor(x, y)
        return mk("binop", type(op).__name__, x, y)

    def _rep(self, x, n, st):
        if n.op == "num" and n.a[0].denominator == 1 and x.op in ("list", "tuple") and 0 <= n.a[0] * len(x.a[0]) <= 40:
            t = mk(x.op, x.a[0] * int(n.a[0]))
        elif n.op == "num" and x.op == "str" and n.a[0] <= 400:
            return string(x.a[0] * int(n.a[0]))
        else:
            t = mk("rep", x, n)
        return self.ref("list", st, t) if x.op == "list" else t

    def _unwrap1(self, x, y):
        if x.op == "list" and len(x.a[0]) == 1 and y.op not in ("list",):
            x = x.a[0][0]
        if y.op == "list" and len(y.a[0]) == 1 and x.op not in ("list",):
            y = y.a[0][0]
        return x, y

    def percent(self, fmt, y):
        vals = list(y.a[0]) if y.op == "tuple" else [y]
        parts, i, lit = [], 0, ""
        k = 0
        while i < len(fmt):
            if fmt[i] == "%" and i + 1 < len(fmt):
                if fmt[i + 1] == "%":
                    lit += "%"
                    i += 2
                    continue
                j = i + 1
                while j < len(fmt) and fmt[j] not in "diouxXeEfFgGcrsa":
                    j += 1
                spec = fmt[i + 1:j + 1]
                parts.append(string(lit))
                lit = ""
                v = vals[k] if k < len(vals) else mk("opaque", "fmt", 0)
                k += 1
                if spec in ("s",):
                    parts.append(tostr(v))
                elif spec == "d":
                    parts.append(tostr(v if _is_int(v) else mk("call", ext("builtins.int"), (v,), ())))
                else:
                    parts.append(mk("fmt", v, spec))
                i = j + 1
                continue
            lit += fmt[i]
            i += 1
        parts.append(string(lit))
        return concat(*[p for p in parts if not (p.op == "str" and not p.a[0])]) if parts else string("")

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(string(v.value))
            else:
                x = self.freeze(self.ev(v.value, st), st)
                spec = ""
                if v.format_spec is not None:
                    sp = self.e_JoinedStr(v.format_spec, st)
                    spec = sp.a[0] if sp.op == "str" else "?"
                parts.append(self.fmtpart(x, spec))
        return concat(*parts) if parts else string("")

    def fmtpart(self, x, spec):
        if spec == "":
            return tostr(x)
        if spec == "d":
            return tostr(x)
        return mk("fmt", x, spec)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.store(n.target, v, st)
        return v

    def e_Starred(self, n, st):
        return mk("spread", self.freeze(self.ev(n.value, st), st))

    def e_Slice(self, n, st):
        f = lambda x: NONE if x is None else self.freeze(self.ev(x, st), st)
        lo, hi, step = f(n.lower), f(n.upper), f(n.step)
        if lo is ZERO and (step is NONE or step is ONE):
            lo = NONE
        if step is ONE:
            step = NONE
        return mk("slice", lo, hi, step)

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st)
            v = self.compare(op, left, right, st)
            if res is None:
                res = v
            else:
                res = band(truth(res), truth(v))
            left = right
        return res

    def compare(self, op, a, b, st):
        x, y = self.freeze(a, st), self.freeze(b, st)
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = self._eq(x, y)
            return bnot(c) if isinstance(op, ast.IsNot) else c
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if x.op in ("num",) and y.op in ("num",):
                c = TRUE if x is y else FALSE
            else:
                c = self._eq(x, y)
            return bnot(c) if isinstance(op, ast.NotEq) else c
        if isinstance(op, ast.Lt):
            return cmp_lt(sub(x, y))
        if isinstance(op, ast.Gt):
            return cmp_lt(sub(y, x))
        if isinstance(op, ast.LtE):
            return cmp_le(sub(x, y))
        if isinstance(op, ast.GtE):
            return cmp_le(sub(y, x))
        if isinstance(op, (ast.In, ast.NotIn)):
            els = None
            if y.op in ("list", "tuple", "set"):
                els = y.a[0]
            elif y.op == "dict":
                els = [k for k, _ in y.a[0]]
            elif y.op == "items":
                els = y.a[0]
            if els is not None:
                c = FALSE
                for e in els:
                    c = bor(c, self._eq(x, e))
            else:
                c = atom(mk("in", x, y))
            return bnot(c) if isinstance(op, ast.NotIn) else c
        return mk("opaque", "cmp", 0)

    def _eq(self, x, y):
        if x.op == "cls" and y.op == "cls":
            return TRUE if x is y else FALSE
        return eq_dist(x, y)

    def e_Attribute(self, n, st):
        return self.getattr_(self.ev(n.value, st), n.attr, st, n)

    def getattr_(self, o, name, st, node, default=None):
        if o.op == "phi":
            leaves_ = {l for l in _leafs(o)}
            if any(l.op == "ref" and self.refs[l.a[0]].kind == "obj" for l in leaves_):
                return self.branch_on(o, st, lambda x, s: self.getattr_(x, name, s, node, default))
        if o.op == "ref" and self.refs[o.a[0]].kind == "obj":
            v = st.heap.get((o.a[0], name))
            cls = self.refs[o.a[0]].cls
            m = cls.find(name)
            if v is not None:
                if _has_undef(v) and (m is not None or default is not None or cls.find_attr(name)):
                    alt = self.bindmethod(m, o, st, node) if m is not None else (
                        default if default is not None else self.classattr(cls, name, st))
                    v = _replace_undef(v, alt)
                return self.defined(v, name, st, node, "attribute")
            if m is not None:
                return self.bindmethod(m, o, st, node)
            if cls.find_attr(name):
                return self.classattr(cls, name, st)
            if name == "__class__":
                return self.clsval(cls)
            if name == "__dict__":
                return mk("opaque", "__dict__", o.a[0])
            if default is not None:
                return default
            if cls.ext_bases() and any(b not in ("object", "?") for b in cls.ext_bases()):
                return mk("attr", o, name)
            self.ev_record(kind="unbound", name=name, recv=o, args=(), kw={}, pc=st.pc, node=node, extra="attribute")
            return mk("opaque", name, 0)
        if o.op == "cls":
            ci = self.classes[o.a[0]]
            if name == "__name__":
                return string(ci.name)
            m = ci.find(name)
            if m is not None:
                if m.classm:
                    return mk("bound", m.qualname, o)
                return mk("func", self._reg(m))
            if ci.find_attr(name):
                return self.classattr(ci, name, st)
            return mk("attr", o, name)
        if o.op == "module":
            r = self.p.resolve(o.a[0], name)
            if r is None:
                return mk("attr", o, name)
            if r[0] == "const":
                return self.modconst(r[1], name, r[2], st)
            return self.resolved(r)
        if o.op == "ext":
            return ext(o.a[0] + "." + name)
        if o.op == "super":
            return mk("superattr", o, name)
        f = self.freeze(o, st)
        return make("attr", f, name)

    def classattr(self, cls, name, st):
        c, node = cls.find_attr(name)
        return self.modconst(c.module, name, node, st)

    def bindmethod(self, m, o, st, node):
        if m.prop is True:
            return self.call_func(m, [], {}, st, node, selfv=o)
        if m.static:
            return mk("func", self._reg(m))
        if m.classm:
            return mk("bound", self._reg(m), self.clsval(self.refs[o.a[0]].cls))
        return mk("bound", self._reg(m), o)

    funcs = {}

    def _reg(self, m):
        key = m.qualname + "@%d" % id(m.node)
        self.funcs[key] = m
        return key

    def func_of(self, q):
        if q in self.funcs:
            return self.funcs[q]
        for m in self.p.modules.values():
            for f in m.funcs.values():
                if f.qualname == q:
                    return f
            for c in m.classes.values():
                for f in c.methods.values():
                    if f.qualname == q:
                        return f
        return None

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        i = self.ev(n.slice, st)
        return self.getitem(b, i, st)

    def getitem(self, b, i, st):
        c = self.content(b, st)
        fi = self.freeze(i, st)
        if c.op in ("list", "tuple") and fi.op == "num" and -len(c.a[0]) <= fi.a[0] < len(c.a[0]) and fi.a[0].denominator == 1:
            return c.a[0][int(fi.a[0])]
        if c.op == "dict":
            for k, v in reversed(c.a[0]):
                if k is fi:
                    return v
        if c.op == "phi":
            return ite(atom(c.a[0]), self.getitem(c.a[1], i, st), self.getitem(c.a[2], i, st))
        if c.op in ("map", "concat", "upd") and any(x.op == "ref" for x in subterms(c)):
            r = index(c, fi)
            return r
        f = self.freeze(c, st)
        made = self.made_in_loop(f, fi, st)
        if made is not None:
            return made
        if f.op == "attr" and f.a[1] == "shape" and fi is ZERO:
            return length(f.a[0])
        r = index(f, fi)
        if fi is FULL:
            return self.ref("ext", st, r)
        return r

    def made_in_loop(self, f, i, st):
        """the object number i of a list filled by a loop with one object per iteration: a copy of the object of the generic
        iteration, whose own state is that of the iteration number i; None if the list is of another shape"""
        if f.op != "loop" or f.a[2].op not in ("phi", "upd"):
            return None
        dom, init, body = f.a
        iv = mk("iv", dom)
        if i is iv or contains(i, iv) or not any(x.op == "ref" and self.refs[x.a[0]].kind == "obj" for x in _leafs_upd(body)):
            return None
        mus = {x for x in subterms(body) if x.op == "mu" and x.a[0] is dom}
        if len(mus) != 1:
            return None
        mu = next(iter(mus))
        copy = Copier(self, st, dom, {iv: i})

        def go(b):
            if b.op == "phi":
                c = atom(b.a[0])
                if contains(c, mu):
                    raise ValueError
                return ite(atom(subst(b.a[0], {iv: i})), go(b.a[1]), go(b.a[2]))
            if b is mu:
                return index(init, i)
            if b.op == "upd" and b.a[0] is mu and b.a[1] is iv:
                return copy.term(b.a[2])
            raise ValueError
        try:
            return go(body)
        except ValueError:
            return None

    def e_ListComp(self, n, st):
        return self.comp(n, st, "list")

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, "list")

    def e_SetComp(self, n, st):
        return self.comp(n, st, "list")

    def e_DictComp(self, n, st):
        fr = self.frames[-1]
        env = self.fresh()
        self.envs[env] = fr.env
        g = n.generators[0]
        els = self.concrete(self.ev(g.iter, st), st)
        if els is None or len(n.generators) != 1 or g.ifs:
            return mk("opaque", "dictcomp", self.fresh())
        kv = []
        f2 = Frame(env, fr.func, fr.module, fr.cls, fr.selfv)
        self.frames.append(f2)
        try:
            for e in els:
                self.store(g.target, e, st)
                kv.append((self.freeze(self.ev(n.key, st), st), self.ev(n.value, st)))
        finally:
            self.frames.pop()
        return self.ref("dict", st, mk("dict", tuple(kv)))

    def comp(self, n, st, kind):
        fr = self.frames[-1]
        env = self.fresh()
        self.envs[env] = fr.env
        f2 = Frame(env, fr.func, fr.module, fr.cls, fr.selfv)
        f2.closures = fr.closures

        def go(gi):
            """content term (list-like) of the comprehension from generator gi on"""
            if gi == len(n.generators):
                return list_([self.ev(n.elt, st)])
            g = n.generators[gi]
            it = self.ev(g.iter, st)
            els = self.concrete(it, st)
            if els is not None:
                parts = [list_([])]
                for e in els:
                    self.store(g.target, e, st)
                    c = TRUE
                    for i in g.ifs:
                        c = band(c, self.cond(i, st))
                    if c is FALSE:
                        continue
                    inner = go(gi + 1)
                    if c is not TRUE:
                        inner = mk("guard", c, self.freeze(inner, st))
                    parts.append(inner)
                return concat(*parts)
            dom, elem = self.domain(it, st)
            saved = self.loops
            self.loops = self.loops + (dom,)
            try:
                self.store(g.target, elem, st)
                c = TRUE
                for i in g.ifs:
                    c = band(c, truth(self.freeze(self.ev(i, st), st)))
                inner = go(gi + 1)
            finally:
                self.loops = saved
            if inner.op == "list" and len(inner.a[0]) == 1 and c is TRUE:
                e = inner.a[0][0]
                e = self.freeze(e, st)
                return mkmap(dom, e)
            return mk("flatmap", dom, ite(c, self.freeze(inner, st), mk("list", ())))
        self.frames.append(f2)
        try:
            t = go(0)
        finally:
            self.frames.pop()
        return self.ref("list", st, t)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st, stmt=False):
        self.stats["calls"] += 1
        f = n.func
        # super()
        if isinstance(f, ast.Name) and f.id == "super" and self.lookup("super", st) is None:
            return self.superval(n, st)
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, st)
            args, kw, star = self.args(n, st)
            return self.call_attr(recv, f.attr, args, kw, star, st, n, stmt)
        fv = self.ev(f, st)
        args, kw, star = self.args(n, st)
        return self.call_value(fv, args, kw, star, st, n, stmt)

    def superval(self, n, st):
        fr = self.frames[-1]
        cls, selfv = fr.cls, fr.selfv
        if n.args:
            c = self.ev(n.args[0], st)
            if c.op == "cls":
                cls = self.classes[c.a[0]]
            if len(n.args) > 1:
                selfv = self.ev(n.args[1], st)
        if selfv is None:
            for g in reversed(self.frames):
                if g.selfv is not None:
                    selfv, cls = g.selfv, cls or g.cls
                    break
        key = cls.qualname + "@" + str(id(cls.node))
        self.classes[key] = cls
        return mk("super", key, selfv)

    def args(self, n, st):
        args, star = [], None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                c = self.concrete(v, st)
                if c is not None:
                    args.extend(c)
                else:
                    star = self.freeze(v, st)
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                c = self.content(v, st)
                if c.op == "dict":
                    for kk, vv in c.a[0]:
                        if kk.op == "str":
                            kw[kk.a[0]] = vv
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return args, kw, star

    def call_attr(self, recv, name, args, kw, star, st, n, stmt):
        if recv.op == "phi":
            lv = _leafs(recv)
            if any(l.op == "ref" and self.refs[l.a[0]].kind in ("obj", "list", "dict") for l in lv) or any(l.op in ("cls", "module", "func", "closure") for l in lv):
                return self.branch_on(recv, st, lambda r, s: self.call_attr(r, name, args, kw, star, s, n, stmt))
        if recv.op == "super":
            cls, selfv = self.classes[recv.a[0]], recv.a[1]
            start = self.refs[selfv.a[0]].cls if selfv.op == "ref" and self.refs[selfv.a[0]].kind == "obj" else cls
            m = start.find(name, after=cls)
            if m is None and start is not cls:
                m = None
            if m is not None:
                return self.call_func(m, args, kw, st, n, selfv=None if m.static else selfv, star=star)
            if name == "__init__" and selfv.op == "ref" and len(args) == 2:
                st.heap[(selfv.a[0], "$dims")] = mk("tuple", tuple(self.freeze(a, st) for a in args))
            return self.extcall(mk("attr", mk("superof", cls.name), name), None, args, kw, star, st, n, stmt)
        if recv.op == "ref":
            k = self.refs[recv.a[0]].kind
            if k == "obj":
                if (recv.a[0], name) not in st.heap:
                    m = self.refs[recv.a[0]].cls.find(name)
                    if m is not None and not m.prop:
                        if m.static:
                            return self.call_func(m, args, kw, st, n, star=star)
                        return self.call_func(m, args, kw, st, n, selfv=recv, star=star)
                    cls = self.refs[recv.a[0]].cls
                    if m is None and not cls.find_attr(name) and cls.ext_bases() and any(b not in ("object",) for b in cls.ext_bases()):
                        return self.extcall(mk("attr", recv, name), recv, args, kw, star, st, n, stmt)
                return self.call_value(self.getattr_(recv, name, st, n), args, kw, star, st, n, stmt)
            if k in ("list", "dict"):
                r = self.container_method(recv, name, args, kw, st, n)
                if r is not None:
                    return r
        if recv.op in ("cls", "module"):
            fv = self.getattr_(recv, name, st, n)
            return self.call_value(fv, args, kw, star, st, n, stmt)
        if recv.op == "ext":
            return self.call_value(ext(recv.a[0] + "." + name), args, kw, star, st, n, stmt)
        f = self.freeze(recv, st)
        if f.op == "call" and f.a[0].op == "ext" and f.a[0].a[0].startswith("builtins.") and f.a[0].a[0].endswith(("Error", "Exception")) and \
                name not in ("with_traceback", "add_note", "args"):
            self.ev_record(kind="unbound", name=name, recv=f, args=(), kw={}, pc=st.pc, node=n, extra="attribute")
        if f.op == "str" or f.op in ("tostr", "concat", "fmt"):
            r = self.str_method(f, name, args, kw, star, st)
            if r is not None:
                return r
        if f.op == "dict" and name in ("items", "keys", "values", "get"):
            r = self.container_method(self.ref("dict", st, f), name, args, kw, st, n)
            if r is not None:
                return r
        if f.op in ("opaque",) and name == "update" and f.a[0] == "__dict__":
            return NONE
        if name in ("getSize",) and not args:
            self.ev_record(kind="call", name="." + name, recv=f, args=(), kw={}, pc=st.pc, node=n)
            return length(f)
        if name in NP_METHODS and not (name in ("reshape", "transpose") and len(args) > 1):
            fr = [recv] + list(args)
            return self.extcall(ext("numpy." + name), None, fr, kw, star, st, n, False, method_of=f)
        if name == "copy" and not args:
            self.ev_record(kind="call", name=".copy", recv=f, args=(), kw={}, pc=st.pc, node=n)
            return self.ref("ext", st, mk("call", mk("attr", f, "copy"), (), ()))
        return self.extcall(mk("attr", f, name), recv, args, kw, star, st, n, stmt)

    def branch_on(self, v, st, fn):
        """apply fn to each leaf of a gated value under its condition and join"""
        if v.op != "phi":
            return fn(v, st)
        c = simp(atom(v.a[0]), st.pc)
        if c is TRUE:
            return self.branch_on(v.a[1], st, fn)
        if c is FALSE:
            return self.branch_on(v.a[2], st, fn)
        a, b = st.copy(band(st.pc, c)), st.copy(band(st.pc, bnot(c)))
        va, vb = self.branch_on(v.a[1], a, fn), self.branch_on(v.a[2], b, fn)
        if a.pc is FALSE:
            st.become(b)
            return vb
        if b.pc is FALSE:
            st.become(a)
            return va
        st.become(self.merge(c, a, b, bor(a.pc, b.pc)))
        return ite(c, va, vb)

    def call_value(self, fv, args, kw, star, st, n, stmt=False):
        op = fv.op
        if op == "phi":
            return self.branch_on(fv, st, lambda f, s: self.call_value(f, args, kw, star, s, n, stmt))
        if op == "ref" and self.refs[fv.a[0]].kind != "obj":
            c = self.content(fv, st)
            if c.op in ("partial", "closure", "bound", "func", "phi"):
                return self.call_value(c, args, kw, star, st, n, stmt)
        if op == "func":
            fi = self.func_of(fv.a[0])
            if fi is not None:
                return self.call_func(fi, args, kw, st, n, star=star)
        if op == "bound":
            fi = self.func_of(fv.a[0])
            if fi is not None:
                return self.call_func(fi, args, kw, st, n, selfv=fv.a[1], star=star)
        if op == "closure":
            c = self.closures[fv.a[0]]
            return self.call_func(c["fi"], args, kw, st, n, env_parent=c["env"], closure=fv.a[0], star=star)
        if op == "partial":
            f, pa, pk = fv.a
            k2 = dict(pk)
            k2.update(kw)
            return self.call_value(f, list(pa) + list(args), k2, star, st, n, stmt)
        if op == "cls":
            return self.instantiate(self.classes[fv.a[0]], args, kw, star, st, n)
        if op == "ref" and self.refs[fv.a[0]].kind == "obj":
            m = self.refs[fv.a[0]].cls.find("__call__")
            if m is not None:
                return self.call_func(m, args, kw, st, n, selfv=fv, star=star)
        if op == "ext":
            return self.extcall(fv, None, args, kw, star, st, n, stmt)
        f = self.freeze(fv, st)
        if f.op == "index" and f.a[0].op == "upd" and f.a[0].a[2].op in ("closure", "bound", "func", "partial"):
            b, k, v = f.a[0].a
            return self.call_value(ite(eq_dist(k, f.a[1]), v, index(b, f.a[1])), args, kw, star, st, n, stmt)
        if f.op == "attr":
            return self.extcall(f, None, args, kw, star, st, n, False)
        return self.extcall(f, None, args, kw, star, st, n, False)

    def instantiate(self, ci, args, kw, star, st, n):
        if ci.name in self.opaque:
            init = ci.find("__init__")
            b = {}
            if init is not None:
                b = self.bind(init, args, kw, st, mk("opaque", "self", 0), None, star, None)
                b.pop(init.node.args.args[0].arg, None)
            fz = {k: self.freeze(v, st) for k, v in b.items()}
            t = mk("call", mk("clsname", ci.name), (), tuple(sorted(fz.items(), key=lambda kv: kv[0])))
            self.ev_record(kind="new", name=ci.name, recv=None, args=(), kw=fz, pc=st.pc, node=n, extra=ci, result=t)
            return self.ref("ext", st, t)
        o = self.ref("obj", st, None, ci)
        st.heap[(o.a[0], "$born")] = ONE
        init = ci.find("__init__")
        self.ev_record(kind="new", name=ci.name, recv=o, args=tuple(self.freeze(a, st) for a in args), kw={k: self.freeze(v, st) for k, v in kw.items()}, pc=st.pc, node=n, extra=ci)
        if init is not None:
            if getattr(ci, "lexenv", None) is not None:
                self.call_func(init, args, kw, st, n, selfv=o, star=star, env_parent=ci.lexenv)
            else:
                self.call_func(init, args, kw, st, n, selfv=o, star=star)
        return o

    # containers ---------------------------------------------------------
    def container_method(self, r, name, args, kw, st, n):
        c = self.content(r, st)
        kind = self.refs[r.a[0]].kind
        fa = tuple(self.freeze(a, st) for a in args)
        if kind == "dict":
            if c.op != "dict":
                return None
            if name == "items":
                return mk("items", tuple(tuple_((k, v)) for k, v in c.a[0]))
            if name == "keys":
                return mk("items", tuple(k for k, v in c.a[0]))
            if name == "values":
                return mk("items", tuple(v for k, v in c.a[0]))
            if name == "get":
                v = None
                res = args[1] if len(args) > 1 else NONE
                for k, x in c.a[0]:
                    res = ite(eq_dist(fa[0], k), x, res)
                return res
            if name == "update" and args:
                d = self.content(args[0], st)
                if d.op == "dict":
                    kv = dict(c.a[0])
                    kv.update(dict(d.a[0]))
                    self.set_content(r, mk("dict", tuple(kv.items())), st, n)
                    return NONE
            if name == "copy":
                return self.ref("dict", st, c)
            if name == "setdefault":
                return None
            return None
        self_rec = lambda: self.ev_record(kind="mutate", name=name, recv=self.freeze(r, st), args=fa, kw={}, pc=st.pc, node=n)
        if name == "append":
            self_rec()
            self.set_content(r, concat(c, list_([args[0]])), st, n)
            return NONE
        if name == "extend":
            self_rec()
            x = self.content(args[0], st)
            self.set_content(r, concat(c, x if is_listlike(x) else self.freeze(x, st)), st, n)
            return NONE
        if name == "insert" and c.op == "list" and fa[0].op == "num":
            self_rec()
            xs = list(c.a[0])
            xs.insert(int(fa[0].a[0]), args[1])
            self.set_content(r, list_(xs), st, n)
            return NONE
        if name == "pop" and c.op == "list" and c.a[0] and (not fa or fa[0].op == "num"):
            self_rec()
            xs = list(c.a[0])
            v = xs.pop(int(fa[0].a[0]) if fa else -1)
            self.set_content(r, list_(xs), st, n)
            return v
        if name in ("remove", "sort", "reverse", "clear", "pop", "insert"):
            self_rec()
            self.set_content(r, mk("after", self.freeze(r, st), name, fa), st, n)
            return NONE
        if name == "copy":
            return self.ref("list", st, c)
        if name == "index" or name == "count":
            return mk("call", mk("attr", self.freeze(r, st), name), fa, ())
        return None

    def str_method(self, f, name, args, kw, star, st):
        fa = [self.freeze(a, st) for a in args]
        if name == "format" and f.op == "str" and star is None:
            out, auto = [], 0
            try:
                for lit, field, spec, conv in _string.Formatter().parse(f.a[0]):
                    if lit:
                        out.append(string(lit))
                    if field is None:
                        continue
                    if field == "":
                        v = fa[auto] if auto < len(fa) else mk("opaque", "fmt", 0)
                        auto += 1
                    elif field.isdigit():
                        v = fa[int(field)]
                    elif field in kw:
                        v = self.freeze(kw[field], st)
                    else:
                        return None
                    out.append(self.fmtpart(v, spec or ""))
            except (ValueError, IndexError):
                return None
            return concat(*out) if out else string("")
        if name == "join" and len(fa) == 1:
            if fa[0].op == "list" and f.op == "str":
                parts = []
                for i, x in enumerate(fa[0].a[0]):
                    if i and f.a[0]:
                        parts.append(f)
                    parts.append(x if x.op in ("str", "tostr", "concat", "fmt") else x)
                return concat(*parts) if parts else string("")
            return mk("join", f, fa[0])
        return None

    # external -----------------------------------------------------------
    def extcall(self, f, recv, args, kw, star, st, n, stmt, method_of=None):
        name = f.a[0] if f.op == "ext" else ("." + f.a[1] if f.op == "attr" else "?")
        if f.op == "ext" and name.startswith("builtins."):
            r = self.builtin(name[9:], args, kw, star, st, n)
            if r is not None:
                return r
        if f.op == "ext" and name.endswith("PythonFunction.__init__") and len(args) == 3 and args[0].op == "ref":
            st.heap[(args[0].a[0], "$dims")] = mk("tuple", tuple(self.freeze(a, st) for a in args[1:]))
        if name == "openturns.Function" and len(args) == 1 and not kw and args[0].op == "ref" and self.refs[args[0].a[0]].kind == "obj":
            # a class of Python functions is the function of its methods
            d, ci = st.heap.get((args[0].a[0], "$dims")), self.refs[args[0].a[0]].cls
            if d is not None and ci.find("_exec") is not None:
                f, name = ext("openturns.PythonFunction"), "openturns.PythonFunction"
                kw = {"func_sample": self.bindmethod(ci.find("_exec_sample"), args[0], st, n)} if ci.find("_exec_sample") is not None else {}
                args = [d.a[0][0], d.a[0][1], self.bindmethod(ci.find("_exec"), args[0], st, n)]
        if f.op == "ext" and name in ("functools.partial",) and args:
            return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))
        fa = tuple(self.freeze(a, st) for a in args)
        fk = {k: self.freeze(v, st) for k, v in kw.items()}
        if star is not None:
            fa = fa + (mk("spread", star),)
        if name.rsplit(".", 1)[-1] in CONSUMERS:
            # the function argument is evaluated during the call: its variables have their value of now
            from .compare import Cmp
            c = Cmp(self, st)
            fa = tuple(c.lamify(x) for x in fa)
            fk = {k: c.lamify(x) for k, x in fk.items()}
        fa, fk = self.normargs(name, fa, fk)
        if f.op == "ext":
            r = self.numeric(name, fa, fk)
            if r is not None:
                self.ev_record(kind="call", name=name, recv=None, args=fa, kw=fk, pc=st.pc, node=n, result=r)
                return r
        res = mk("call", f, fa, tuple(sorted(fk.items())))
        e = self.ev_record(kind="call", name=name, recv=(method_of if method_of is not None else (f.a[0] if f.op == "attr" else None)),
                           args=fa, kw=fk, pc=st.pc, node=n, result=res, extra=stmt)
        if f.op == "attr" and recv is not None and (stmt or f.a[1] in MUTATORS) and not _pure_fit(f):
            tgt = recv
            if tgt.op in ("ref", "phi"):
                if tgt.op == "ref" and self.refs[tgt.a[0]].kind == "obj":
                    return self.ref("ext", st, res)
                self.ev_record(kind="mutate", name=f.a[1], recv=f.a[0], args=fa, kw=fk, pc=st.pc, node=n)
                self.apply_effect(tgt, f.a[1], fa + tuple(v for k, v in sorted(fk.items())), st, n)
            else:
                self.ev_record(kind="mutate", name=f.a[1], recv=f.a[0], args=fa, kw=fk, pc=st.pc, node=n)
        return self.ref("ext", st, res)

    def apply_effect(self, r, m, fa, st, n, cond=TRUE):
        if r.op == "phi":
            c = atom(r.a[0])
            self.apply_effect(r.a[1], m, fa, st, n, band(cond, c))
            self.apply_effect(r.a[2], m, fa, st, n, band(cond, bnot(c)))
            return
        if r.op != "ref" or (r.a[0], "$") not in st.heap:
            return
        c = self.freeze(r, st)
        if m.startswith(("get", "compute", "is", "has", "draw", "save")):
            return
        new = after(c, m, fa)
        self.set_content(r, new, st, n, cond)

    def normargs(self, name, fa, fk):
        sig = SIGNATURES.get(name)
        if sig:
            fk = dict(fk)
            fa = list(fa)
            while len(fa) < len(sig) and sig[len(fa)] in fk:
                fa.append(fk.pop(sig[len(fa)]))
            fa = tuple(fa)
        return fa, fk

    def numeric(self, name, fa, fk):
        """canonical forms of numeric helpers"""
        if fk:
            return None
        if name in ("numpy.sqrt", "math.sqrt") and len(fa) == 1:
            return power(fa[0], num(0.5))
        if name == "numpy.square" and len(fa) == 1:
            return power(fa[0], num(2))
        if name in ("numpy.power", "math.pow") and len(fa) == 2:
            return power(*fa)
        if name in ("numpy.logical_and",) and len(fa) == 2:
            return land(*fa)
        if name in ("numpy.logical_or",) and len(fa) == 2:
            return lor(*fa)
        if name in ("numpy.logical_not",) and len(fa) == 1:
            return mk("lnot", fa[0])
        if len(fa) == 2:
            x, y = fa
            if name == "numpy.greater":
                return cmp_lt(sub(y, x))
            if name == "numpy.less":
                return cmp_lt(sub(x, y))
            if name == "numpy.greater_equal":
                return cmp_le(sub(y, x))
            if name == "numpy.less_equal":
                return cmp_le(sub(x, y))
            if name in ("numpy.add", "operator.add"):
                return add(x, y)
            if name in ("numpy.subtract", "operator.sub"):
                return sub(x, y)
            if name in ("numpy.multiply", "operator.mul"):
                return mul(x, y)
            if name in ("numpy.divide", "numpy.true_divide", "operator.truediv"):
                return div(x, y)
        if name == "numpy.negative" and len(fa) == 1:
            return neg(fa[0])
        if name in ("numpy.abs", "numpy.absolute", "math.fabs") and len(fa) == 1:
            return mk("call", ext("builtins.abs"), fa, ())
        if name in ("numpy.amin",):
            return mk("call", ext("numpy.min"), fa, ())
        if name in ("numpy.amax",):
            return mk("call", ext("numpy.max"), fa, ())
        return None

    def builtin(self, b, args, kw, star, st, n):
        fz = lambda i: self.freeze(args[i], st)
        na = len(args)
        if b == "len" and na == 1:
            c = fz(0)
            if c.op in ("list", "tuple", "dict"):
                return num(len(c.a[0]))
            if c.op == "str":
                return num(len(c.a[0]))
            return length(c)
        if b == "range":
            xs = [fz(i) for i in range(na)]
            if na == 1:
                return mk("range", ZERO, xs[0], ONE)
            if na == 2:
                return mk("range", xs[0], xs[1], ONE)
            if na == 3:
                return mk("range", *xs)
        if b == "enumerate" and na >= 1:
            return mk("enumerate", args[0], args[1] if na > 1 else kw.get("start", ZERO))
        if b == "zip":
            return mk("zip", tuple(args))
        if b == "reversed" and na == 1:
            return mk("reversed", args[0])
        if b in ("list", "tuple") and na == 1:
            c = self.concrete(args[0], st)
            if c is not None:
                return self.ref("list", st, list_(c)) if b == "list" else tuple_(c)
            c = self.content(args[0], st)
            if c.op in ("map", "concat"):
                return self.ref("list", st, c) if b == "list" else c
            if c.op in ("range", "zip", "enumerate"):
                dom, e = self.domain(args[0], st)
                return self.ref("list", st, mkmap(dom, self.freeze(e, st)))
            return self.ref("list", st, mk("call", ext("builtins.list"), (self.freeze(args[0], st),), ()))
        if b in ("list", "tuple") and na == 0:
            return self.ref("list", st, list_([])) if b == "list" else tuple_([])
        if b == "dict":
            if na == 0:
                return self.ref("dict", st, mk("dict", tuple((string(k), v) for k, v in kw.items())))
            c = self.content(args[0], st)
            if c.op == "dict":
                return self.ref("dict", st, mk("dict", c.a[0] + tuple((string(k), v) for k, v in kw.items())))
            els = self.concrete(args[0], st)
            if els is not None and all(e.op == "tuple" and len(e.a[0]) == 2 for e in els):
                return self.ref("dict", st, mk("dict", tuple((e.a[0][0], e.a[0][1]) for e in els)))
            return None
        if b == "str" and na == 1:
            return tostr(fz(0))
        if b == "bool" and na == 1:
            return simp(truth(fz(0)), st.pc)
        if b == "isinstance" and na == 2:
            v = args[0]
            if v.op == "ref" and self.refs[v.a[0]].kind == "obj" and args[1].op == "cls":
                return TRUE if self.classes[args[1].a[0]] in self.refs[v.a[0]].cls.mro() else FALSE
            t = fz(1)
            ts = t.a[0] if t.op == "tuple" else (t,)
            r = FALSE
            for x in ts:
                r = bor(r, self._isinstance(fz(0), x))
            return simp(r, st.pc)
        if b == "type" and na == 1:
            v = args[0]
            if v.op == "ref" and self.refs[v.a[0]].kind == "obj":
                return self.clsval(self.refs[v.a[0]].cls)
            return mk("call", ext("builtins.type"), (fz(0),), ())
        if b == "getattr" and na >= 2:
            nm = fz(1)
            if nm.op == "str":
                return self.getattr_(args[0], nm.a[0], st, n, args[2] if na > 2 else None)
            if nm.op == "phi":
                return self.branch_on(nm, st, lambda x, s: self.builtin("getattr", [args[0], x] + list(args[2:]), kw, star, s, n))
            return mk("call", ext("builtins.getattr"), (fz(0), nm), ())
        if b == "setattr" and na == 3:
            nm = fz(1)
            if nm.op == "str":
                self.setattr_(args[0], nm.a[0], args[2], st, n)
                return NONE
        if b == "hasattr" and na == 2:
            nm, o = fz(1), args[0]
            if nm.op == "str" and nm.a[0] in FEATURES and fz(0).op in ("call", "after"):
                return TRUE
            if nm.op == "str" and o.op == "ref" and self.refs[o.a[0]].kind == "obj":
                v = st.heap.get((o.a[0], nm.a[0]))
                cls = self.refs[o.a[0]].cls
                if cls.find(nm.a[0]) or cls.find_attr(nm.a[0]):
                    return TRUE
                if v is None:
                    return FALSE
                if v.op == "phi" and _has_undef(v):
                    return bnot(_undef_cond(v))
                return FALSE if v is UNDEF else TRUE
        if b == "slice" and star is None and 1 <= na <= 3 and not kw:
            x = [self.freeze(a, st) for a in args]
            return mk("slice", *([NONE, x[0], NONE] if na == 1 else (x + [NONE])[:3]))
        if b == "map" and na >= 2:
            its = [(self.concrete(a, st)) for a in args[1:]]
            if star is None and all(i is not None for i in its):
                return self.ref("list", st, list_([self.call_value(args[0], list(t), {}, None, st, n) for t in zip(*its)]))
            if star is None:
                dom, e = self.domain(mk("zip", tuple(args[1:])), st)
                saved = self.loops
                self.loops += (dom,)
                v = self.call_value(args[0], list(e.a[0]), {}, None, st, n)
                self.loops = saved
                return self.ref("list", st, mkmap(dom, self.freeze(v, st)))
        if b == "map" and na == 1 and star is not None:
            dom = self._dom("seq", index(star, ZERO))
            iv = mk("iv", dom)
            saved = self.loops
            self.loops += (dom,)
            nparams = 0
            f = args[0]
            if f.op == "closure":
                nparams = len(self.closures[f.a[0]]["fi"].node.args.args)
            v = self.call_value(f, [index(index(star, num(i)), iv) for i in range(nparams)], {}, None, st, n)
            self.loops = saved
            return self.ref("list", st, mkmap(dom, self.freeze(v, st)))
        if b == "int" and na == 1:
            c = fz(0)
            if c.op == "num":
                return num(int(c.a[0]))
            if c.op == "len":
                return c
            return mk("call", ext("builtins.int"), (c,), ())
        if b == "float" and na == 1:
            c = fz(0)
            if c.op == "num":
                return c
            return mk("call", ext("builtins.float"), (c,), ())
        if b == "abs" and na == 1:
            c = fz(0)
            return num(abs(c.a[0])) if c.op == "num" else mk("call", ext("builtins.abs"), (c,), ())
        if b == "pow" and na == 2:
            return power(fz(0), fz(1))
        if b == "callable" and na == 1:
            return None
        if b in ("any", "all") and na == 1:
            c = fz(0)
            if c.op == "list":
                r = FALSE if b == "any" else TRUE
                for x in c.a[0]:
                    r = bor(r, truth(x)) if b == "any" else band(r, truth(x))
                return r
        if b == "sum" and na == 1:
            c = fz(0)
            if c.op == "list":
                r = ZERO
                for x in c.a[0]:
                    r = add(r, x)
                return r
            if c.op == "map":
                return mk("sum", c.a[0], c.a[1])
        if b == "object" and na == 0:
            return self.ref("ext", st, mk("call", ext("builtins.object"), (), ()))
        return None

    # ------------------------------------------------------------ entry points
    def _isinstance(self, v, x):
        if v.op == "phi":
            return ite(atom(v.a[0]), self._isinstance(v.a[1], x), self._isinstance(v.a[2], x))
        if x.op == "ext" and x.a[0].startswith("builtins."):
            n = x.a[0][9:]
            kinds = {"true": ("bool", "int", "object"), "false": ("bool", "int", "object"), "none": ("NoneType", "object"),
                     "str": ("str", "object"), "list": ("list", "object"), "tuple": ("tuple", "object"),
                     "dict": ("dict", "object")}.get(v.op)
            if kinds is not None:
                return TRUE if n in kinds else FALSE
            if v.op == "param" and len(v.a) > 1 and v.a[1] == "f" and n in ("float", "bool", "str", "int", "list", "tuple", "dict"):
                return TRUE if n == "float" else FALSE
        if x.op == "ext" and x.a[0] in ("builtins.float", "builtins.str", "builtins.bool") and _point_item(v):
            return TRUE if x.a[0] == "builtins.float" else FALSE
        t = truth(mk("call", ext("builtins.isinstance"), (v, x), ()))
        return t

    def param(self, owner, name, st, flag=None):
        t = mk("param", "%s:%s" % (owner, name)) if flag is None else mk("param", "%s:%s" % (owner, name), flag)
        return self.ref("ext", st, t)

    def entry(self, fi, st, selfv=None, args=None, label=None):
        """analyse a function as an entry point; parameters not given are symbolic"""
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if selfv is not None and not fi.static:
            names = names[1:]
        kw = {}
        for nme in names:
            if args and nme in args:
                kw[nme] = args[nme]
                if isinstance(kw[nme], str):       # flag of a symbolic parameter: "n" not None, "f" a float
                    kw[nme] = self.param(label or fi.qualname, nme, st, kw[nme])
            else:
                kw[nme] = self.param(label or fi.qualname, nme, st)
        env = self.fresh()
        self.envs[env] = None
        self.frames.append(Frame(env, None, fi.module, None, None))
        self.sinks.append([])
        try:
            v = self.call_func(fi, [], kw, st, fi.node, selfv=None if fi.static else selfv)
        finally:
            raised = self.sinks.pop()
            self.frames.pop()
        return v, raised, kw

    def construct(self, ci, st, args=None, label=None):
        o = self.ref("obj", st, None, ci)
        st.heap[(o.a[0], "$born")] = ONE
        init = ci.find("__init__")
        raised, kw = [], {}
        if init is not None:
            _, raised, kw = self.entry(init, st, selfv=o, args=args, label=label or (ci.name + ".__init__"))
        return o, raised, kw

    def setters(self, o, st, only=None):
        """gate each public setter: afterwards fields hold 'value set by setX if it was called'"""
        cls = self.refs[o.a[0]].cls
        seen = {}
        for c in cls.mro():
            for name, m in c.methods.items():
                if name.startswith("set") and len(name) > 3 and name[3].isupper() and name not in seen:
                    seen[name] = cls.find(name)
        for name in sorted(seen):
            if only is not None and name not in only:
                continue
            c = atom(mk("called", cls.name + "." + name))
            s = st.copy(band(st.pc, c))
            nev = len(self.events)
            self.quiet += 1
            try:
                self.entry(seen[name], s, selfv=o, label=cls.name + "." + name)
            finally:
                self.quiet -= 1
            del self.events[nev:]
            if s.pc is FALSE:
                continue
            # an accepted call: the acceptance condition of the setter holds whenever it was called
            st.become(self.merge(c, s.copy(), st.copy(), bor(s.pc, band(st.pc, bnot(c)))))
        return st

    def setter_methods(self, o):
        cls = self.refs[o.a[0]].cls
        seen = {}
        for c in cls.mro():
            for name in c.methods:
                if name.startswith("set") and len(name) > 3 and name[3].isupper() and name not in seen:
                    seen[name] = cls.find(name)
        return seen

    def call_setters(self, o, st, which):
        """the setters were called and accepted their (non-None) arguments; which: '-x -y' all but, or 'x y' only

        'x=word' gives the argument of x
        """
        cls = self.refs[o.a[0]].cls
        ms = self.setter_methods(o)
        words = which.split()
        consts = dict(x.split("=") for x in words if "=" in x)     # setX=word: called with that string
        words = [x.split("=")[0] for x in words]
        names = sorted(ms, key=lambda n: (not n.endswith("Type"), n))
        if words and words[0].startswith("-"):
            names = [n for n in names if "-" + n not in words]
        else:
            names = [n for n in names if n in words]
        out = {}
        for name in names:
            fi = ms[name]
            a = fi.node.args
            pn = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
            nd = len(a.defaults)
            req = pn[:len(pn) - nd] if nd else pn
            args = {x: "n" for x in req}
            if name in consts:
                args[req[0]] = string(consts[name])
            for x, d in zip(pn[len(req):], a.defaults):
                args[x] = self.ev_default(fi, d, st)
            nev = len(self.events)
            self.quiet += 1
            s = st.copy()
            try:
                _, _, kw = self.entry(fi, s, selfv=o, args=args, label=cls.name + "." + name)
            finally:
                self.quiet -= 1
            del self.events[nev:]
            if s.pc is FALSE:
                continue
            st.become(s)
            out[name] = kw
        return out

    def apply(self, f, args, st):
        """value of calling a function value (closure, bound method, interp...) on given terms"""
        env = self.fresh()
        self.envs[env] = None
        mod = next(iter(self.p.modules.values()))
        self.frames.append(Frame(env, None, mod, None, None))
        self.sinks.append([])
        try:
            return self.call_value(f, args, {}, None, st, ast.Pass(lineno=0))
        finally:
            self.sinks.pop()
            self.frames.pop()

    def field(self, o, name, st):
        v = st.heap.get((o.a[0], name))
        return None if v is None else self.freeze(v, st)


def after(c, m, fa):
    """effect of a mutating method; setters of different properties commute, a repeated setter overrides"""
    if m.startswith("set") and c.op == "after" and c.a[1].startswith("set"):
        if c.a[1] == m:
            return mk("after", c.a[0], m, fa)
        if c.a[1] > m:
            return mk("after", after(c.a[0], m, fa), c.a[1], c.a[2])
    return mk("after", c, m, fa)


def _preorder(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(reversed(list(kids(x))))


def _appended(nxt, mu):
    """r when nxt == mu + r on every branch"""
    if nxt.op == "phi":
        if contains(nxt.a[0], mu):
            return None
        a, b = _appended(nxt.a[1], mu), _appended(nxt.a[2], mu)
        if a is None or b is None:
            return None
        if a.op == b.op == "list" and len(a.a[0]) == len(b.a[0]):
            return mk("list", tuple(ite(atom(nxt.a[0]), x, y) for x, y in zip(a.a[0], b.a[0])))
        return ite(atom(nxt.a[0]), a, b)
    if nxt is mu:
        return mk("list", ())
    if nxt.op == "concat" and nxt.a[0][0] is mu and not any(contains(x, mu) for x in nxt.a[0][1:]):
        return concat(*nxt.a[0][1:])
    return None


def _upd(b, i, v):
    return mk("upd", b.a[0] if b.op == "upd" and b.a[1] is i else b, i, v)


def _merge_upd(t):
    """the same element set on both branches: set once to a value that depends on the branch"""
    if t.op == "phi":
        a, b = _merge_upd(t.a[1]), _merge_upd(t.a[2])
        if a.op == b.op == "upd" and a.a[0] is b.a[0] and a.a[1] is b.a[1]:
            return mk("upd", a.a[0], a.a[1], ite(atom(t.a[0]), a.a[2], b.a[2]))
    return t


def _anon(nxt, mu, dom):
    """rename the loop variable: its level of nesting instead of its origin"""
    k = 1 + max([x.a[2] for x in subterms(nxt) if x.op == "mu" and x.a[1] == "#"], default=0)
    return subst(nxt, {mu: mk("mu", dom, "#", k)})


def _pure_fit(f):
    """statsmodels: fit returns the result and the fitted values depend only on the arguments"""
    r = f.a[0]
    return f.a[1] == "fit" and r.op == "call" and r.a[0].op == "ext" and r.a[0].a[0].startswith("statsmodels.")


def _point_item(v):
    """component of the openturns.Point returned by a method known to return one"""
    return (v.op == "index" and v.a[1].op == "num" and v.a[0].op == "call" and v.a[0].a[0].op == "attr"
            and v.a[0].a[0].a[-1] in ("getLambda", "getMin", "getMax") and not v.a[0].a[1])


def land(x, y):
    return mk("land", *sorted((x, y), key=lambda t: t.id))


def lor(x, y):
    return mk("lor", *sorted((x, y), key=lambda t: t.id))


def _leafs(v):
    if v.op != "phi":
        return [v]
    return _leafs(v.a[1]) + _leafs(v.a[2])


def _cond_of(v, leaf):
    if v is leaf:
        return TRUE
    if v.op != "phi":
        return FALSE
    return ite(atom(v.a[0]), _cond_of(v.a[1], leaf), _cond_of(v.a[2], leaf))


def _has_undef(v):
    return v is UNDEF or (v.op == "phi" and (_has_undef(v.a[1]) or _has_undef(v.a[2])))


def _undef_cond(v):
    if v is UNDEF:
        return TRUE
    if v.op != "phi":
        return FALSE
    return ite(atom(v.a[0]), _undef_cond(v.a[1]), _undef_cond(v.a[2]))


def _strip_undef(v):
    if v.op != "phi":
        return v
    a, b = _strip_undef(v.a[1]), _strip_undef(v.a[2])
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    return ite(atom(v.a[0]), a, b)


def _replace_undef(v, alt):
    if v is UNDEF:
        return alt
    if v.op != "phi":
        return v
    return ite(atom(v.a[0]), _replace_undef(v.a[1], alt), _replace_undef(v.a[2], alt))


def _is_int(v):
    return v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] in ("builtins.int", "builtins.round")


_locals_memo = {}


def _locals_of(node):
    r = _locals_memo.get(id(node))
    if r is None:
        names = set()

        def visit(n, top):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    names.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                    names.add(c.id)
                visit(c, False)
        visit(node, True)
        r = (node, names)
        _locals_memo[id(node)] = r
    return r[1]


def _declared_global(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out |= set(n.names)
    return out


def _as_load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t
