"""Hash-consed value terms and their normal forms.

A term stands for the value of an expression of the analysed program.  Terms
are interned, so two expressions have the same normal form iff they are the
same Python object.  Branching is kept as gates, `phi(atom, a, b)`, ordered by
atom like a multi-terminal decision diagram, which makes the order and nesting
of `if`s irrelevant; arithmetic is kept as a polynomial with rational
coefficients, which makes the spelling of formulas irrelevant.
"""
from fractions import Fraction

_table = {}
_count = [0]


class T:
    __slots__ = ("op", "a", "id", "gated", "_sub", "_mus")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op, a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _count[0] += 1
        t.id = _count[0]
        t.gated = op == "phi" or any(c.gated for c in kids_of(a))
        t._sub = t._mus = None
        _table[key] = t
    return t


def kids_of(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from kids_of(x)


def kids(t):
    return kids_of(t.a)


_NONE = frozenset()


def free_mus(t):
    """loop-carried variables occurring in t whose loop is not yet closed"""
    r = t._mus
    if r is None:
        if t.op == "mu":
            r = frozenset((t,)) if t.a[1] != "#" else _NONE
            for k in kids(t):
                r |= free_mus(k)
        else:
            r = _NONE
            for k in kids(t):
                m = free_mus(k)
                if m:
                    r = r | m if r else m
        t._mus = r
    return r


TRUE, FALSE, NONE, UNDEF = mk("true"), mk("false"), mk("none"), mk("undef")
ELLIPSIS = mk("ellipsis")


def num(v):
    if isinstance(v, Fraction):
        return mk("num", v)
    if isinstance(v, int):
        return mk("num", Fraction(v))
    return mk("num", Fraction(repr(v)))


def string(s):
    return mk("str", s)


def ext(name):
    return mk("ext", name)


ZERO, ONE = num(0), num(1)


# --------------------------------------------------------------- arithmetic
def _mono_of(t):
    """term -> {monomial: coeff}"""
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {((t, Fraction(1)),): Fraction(1)}


def from_monos(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda kv: (len(kv[0]), [(f.id, e) for f, e in kv[0]])))
    return mk("poly", items)


def is_listlike(t):
    return t.op in ("list", "tuple", "map", "concat", "str", "tostr")


def add(x, y):
    d = _mono_of(x)
    for m, c in _mono_of(y).items():
        d[m] = d.get(m, 0) + c
    return from_monos(d)


def neg(x):
    return from_monos({m: -c for m, c in _mono_of(x).items()})


def sub(x, y):
    return add(x, neg(y))


def _mulmono(m1, m2):
    d = {}
    for f, e in m1 + m2:
        d[f] = d.get(f, 0) + e
    return tuple(sorted(((f, e) for f, e in d.items() if e != 0), key=lambda fe: fe[0].id))


def mul(x, y):
    dx, dy = _mono_of(x), _mono_of(y)
    if len(dx) > 1 and len(dy) > 1 and len(dx) * len(dy) > 36:
        return from_monos({_mulmono(((x, Fraction(1)),), ((y, Fraction(1)),)): Fraction(1)})
    r = {}
    for m1, c1 in dx.items():
        for m2, c2 in dy.items():
            m = _mulmono(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    # re-expand integer powers of sums that became positive
    return from_monos(r)


def power(x, e):
    if e.op != "num":
        return mk("pow", x, e)
    e = e.a[0]
    if e == 1:
        return x
    if e == 0:
        return ONE
    d = _mono_of(x)
    if not d:
        return ZERO if e > 0 else mk("pow", x, num(e))
    if len(d) == 1:
        (m, c), = d.items()
        if e.denominator == 1:
            cc = c ** int(e)
            return from_monos({tuple((f, k * e) for f, k in m): cc})
        if c == 1:
            return from_monos({tuple((f, k * e) for f, k in m): Fraction(1)})
        if c > 0:
            r = _rat_root(c, e)
            if r is not None:
                return from_monos({tuple((f, k * e) for f, k in m): r})
            base = num(c)
            return from_monos({_mulmono(((base, e),), tuple((f, k * e) for f, k in m)): Fraction(1)})
        return from_monos({((x, e),): Fraction(1)})
    if e.denominator == 1 and 2 <= e <= 3 and len(d) <= 6:
        r = x
        for _ in range(int(e) - 1):
            r = mul(r, x)
        return r
    # power of a sum: factor out leading coefficient for odd/even integer powers
    if e.denominator == 1:
        lead = x.a[0][0][1] if x.op == "poly" else Fraction(1)
        if lead != 1:
            base = mul(x, num(1 / lead))
            return from_monos({((base, e),): lead ** int(e)})
    return from_monos({((x, e),): Fraction(1)})


def _rat_root(c, e):
    if e == Fraction(1, 2) or e == Fraction(-1, 2):
        from math import isqrt
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            r = Fraction(n, d)
            return r if e > 0 else 1 / r
    return None


def div(x, y):
    if y.op == "num" and y.a[0] == 0:
        return mk("div", x, y)
    return mul(x, power(y, num(-1)))


# --------------------------------------------------------------- gates
_ite_memo = {}


def ite(c, a, b):
    """c is a decision diagram (phi tree with TRUE/FALSE leaves)."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    top = min((t.a[0] for t in (c, a, b) if t.op == "phi"), key=lambda v: v.id)

    def cof(t, val):
        if t.op == "phi" and t.a[0] is top:
            return t.a[1] if val else t.a[2]
        return t
    hi = ite(cof(c, 1), cof(a, 1), cof(b, 1))
    lo = ite(cof(c, 0), cof(a, 0), cof(b, 0))
    r = hi if hi is lo else mk("phi", top, hi, lo)
    _ite_memo[key] = r
    return r


def atom(t):
    return mk("phi", t, TRUE, FALSE)


def bnot(c):
    return ite(c, FALSE, TRUE)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


# mutually exclusive / implied atoms ------------------------------------
_eq_atoms = {}


def eq_atom(x, const):
    """atom for x == const (const: str/num/none) ; registers exclusivity"""
    t = mk("eq", x, const)
    _eq_atoms.setdefault(x, {})[const] = t
    return t


def implied(at, val):
    out = {}
    if at.op == "eq" and val:
        for k, other in _eq_atoms.get(at.a[0], {}).items():
            if other is not at:
                out[other] = False
        if at.a[1] is NONE:
            out[mk("truth", at.a[0])] = False
            for o in _inst_atoms.get(at.a[0], ()):
                out[o] = False
    elif at.op == "truth" and val:
        out[mk("eq", at.a[0], NONE)] = False
        x = _isinstance_of(at.a[0])
        if x is not None:
            out[mk("eq", x, NONE)] = False
    return out


_inst_atoms = {}


def _isinstance_of(v):
    if v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] == "builtins.isinstance" and len(v.a[1]) == 2:
        return v.a[1][0]
    return None


_restrict_memo = {}


def restrict(t, at, val):
    """cofactor of the top diagram of t"""
    if t.op != "phi":
        return t
    key = (t, at, val)
    r = _restrict_memo.get(key)
    if r is None:
        v, h, l = t.a
        if v is at:
            r = h if val else l
        else:
            hh, ll = restrict(h, at, val), restrict(l, at, val)
            r = t if (hh is h and ll is l) else (hh if hh is ll else ite(atom(v), hh, ll))
        _restrict_memo[key] = r
    return r


def restrict_theory(pc, at, val):
    pc = restrict(pc, at, val)
    for o, v in implied(at, val).items():
        pc = restrict(pc, o, v)
    return pc


_atoms_memo = {}


def gate_atoms(t):
    """atoms of all gates occurring in t, at any depth"""
    r = _atoms_memo.get(t)
    if r is None:
        if not t.gated:
            r = frozenset()
        else:
            r = set()
            if t.op == "phi":
                r.add(t.a[0])
            for k in kids(t):
                if k.gated:
                    r |= gate_atoms(k)
            r = frozenset(r)
        _atoms_memo[t] = r
    return r


def diagram_vars(pc):
    r = _dvars_memo.get(pc)
    if r is None:
        r = frozenset() if pc.op != "phi" else diagram_vars(pc.a[1]) | diagram_vars(pc.a[2]) | {pc.a[0]}
        _dvars_memo[pc] = r
    return r


_dvars_memo = {}
_exists_memo = {}


def exists(pc, ats):
    """existential quantification of atoms in a decision diagram"""
    if pc.op != "phi" or not (diagram_vars(pc) & ats):
        return pc
    key = (pc, ats)
    r = _exists_memo.get(key)
    if r is None:
        v, h, l = pc.a
        hh, ll = exists(h, ats), exists(l, ats)
        r = bor(hh, ll) if v in ats else (hh if hh is ll else ite(atom(v), hh, ll))
        _exists_memo[key] = r
    return r


def _linked(v):
    """the value an atom speaks about, when atoms about one value constrain each other"""
    if v.op == "eq":
        return v.a[0]
    if v.op == "truth":
        x = _isinstance_of(v.a[0])
        return v.a[0] if x is None else x
    return None


def project(pc, t):
    """weakest condition on the atoms of t that pc implies"""
    if pc.op != "phi":
        return pc
    mine = gate_atoms(t)
    dv = diagram_vars(pc)
    drop = dv - mine
    if drop:
        about = {_linked(v) for v in mine} - {None}
        drop = frozenset(v for v in drop if _linked(v) not in about)
    return exists(pc, drop) if drop else pc


def with_atom(pc, at, val):
    """pc and the literal (kept, so that it also decides nested occurrences)"""
    pc = restrict_theory(pc, at, val)
    if pc is FALSE:
        return pc
    return band(pc, atom(at) if val else bnot(atom(at)))


def _topic(v):
    """atoms with different topics never decide each other"""
    x = _linked(v)
    return x if x is not None else ("order" if v.op in ("lt", "le") else v)


_topics_memo = {}


def _topics(t, vs):
    r = _topics_memo.get((t, vs))
    if r is None:
        r = _topics_memo[(t, vs)] = frozenset(_topic(v) for v in vs(t)) | vs(t)
    return r


_simp_memo = {}
_deep_memo = {}


def simp(t, pc):
    """simplify the gates of t (deeply) under the path condition pc"""
    if not t.gated:
        return t
    if pc.op == "phi" and _topics(pc, diagram_vars).isdisjoint(_topics(t, gate_atoms)):
        pc = TRUE
    key = (t, pc)
    r = _simp_memo.get(key)
    if r is not None:
        return r
    if t.op == "phi":
        v, h, l = t.a
        p1, p0 = restrict_theory(pc, v, True), restrict_theory(pc, v, False)
        if p1 is FALSE and p0 is not FALSE:
            r = simp(l, pc)
        elif p0 is FALSE and p1 is not FALSE:
            r = simp(h, pc)
        elif v.gated and simp(v, pc) is not v:
            r = simp(ite(atom_of(simp(v, pc)), h, l), pc)
        else:
            # theory: inside the high branch, implied atoms are fixed
            hh, ll = h, l
            for o, val in implied(v, True).items():
                hh = restrict(hh, o, val)
            hh, ll = simp(hh, p1), simp(ll, p0)
            r = hh if hh is ll else ite(atom(v), hh, ll)
    else:
        r = rebuild(t, lambda k: simp(k, pc))
    _simp_memo[key] = r
    return r


def deep_simp(t, pc):
    """simplify the gates of t (deeply) under the path condition pc"""
    if not t.gated:
        return t
    pc = project(pc, t)
    key = (t, pc)
    r = _deep_memo.get(key)
    if r is not None:
        return r
    if t.op == "phi":
        v, h, l = t.a
        p1, p0 = restrict_theory(pc, v, True), restrict_theory(pc, v, False)
        if p1 is FALSE and p0 is not FALSE:
            r = deep_simp(l, with_atom(pc, v, False))
        elif p0 is FALSE and p1 is not FALSE:
            r = deep_simp(h, with_atom(pc, v, True))
        elif v.gated and deep_simp(v, pc) is not v:
            r = deep_simp(ite(atom_of(deep_simp(v, pc)), h, l), pc)
        else:
            # theory: inside the high branch, implied atoms are fixed
            hh, ll = h, l
            for o, val in implied(v, True).items():
                hh = restrict(hh, o, val)
            hh, ll = deep_simp(hh, with_atom(pc, v, True)), deep_simp(ll, with_atom(pc, v, False))
            r = hh if hh is ll else ite(atom(v), hh, ll)
    else:
        r = rebuild(t, lambda k: deep_simp(k, pc))
    _deep_memo[key] = r
    return r


def _map_args(a, f):
    return tuple(f(x) if isinstance(x, T) else (_map_args(x, f) if isinstance(x, tuple) else x) for x in a)


def rebuild(t, f):
    """apply f to the children and re-normalise"""
    if t.op == "poly":
        r = ZERO
        for m, c in t.a[0]:
            p = num(c)
            for fct, e in m:
                p = mul(p, power(f(fct), num(e)))
            r = add(r, p)
        return r
    if t.op == "phi":
        v, h, l = t.a
        return ite(truth(f(v)) if False else atom_of(f(v)), f(h), f(l))
    a = _map_args(t.a, f)
    if a == t.a:
        return t
    return make(t.op, *a)


def atom_of(v):
    """diagram for an atom after substitution"""
    if v is TRUE or v is FALSE:
        return v
    return truth(v)


def truth(v):
    """value -> decision diagram of its truth value"""
    op = v.op
    if op == "phi":
        return ite(atom(v.a[0]), truth(v.a[1]), truth(v.a[2]))
    if op in ("true", "false"):
        return v
    if op == "none":
        return FALSE
    if op == "undef":
        return mk_truth(v)
    if op == "num":
        return TRUE if v.a[0] != 0 else FALSE
    if op == "str":
        return TRUE if v.a[0] else FALSE
    if op in ("list", "tuple"):
        return TRUE if v.a[0] else FALSE
    if op in ("closure", "bound", "func", "cls", "module"):
        return TRUE
    if op == "lt":
        return lt0_dist(v.a[0])
    if op == "le":            # p <= 0  ==  not (-p < 0)
        return bnot(lt0_dist(neg(v.a[0])))
    if op == "eq":
        return eq_dist(v.a[0], v.a[1])
    if op == "ne":
        return bnot(eq_dist(v.a[0], v.a[1]))
    if op == "not":
        return bnot(truth(v.a[0]))
    if op in ("in", "exc", "called", "excpos", "truth", "opaque", "choice"):
        return atom(v)
    return mk_truth(v)


def mk_truth(v):
    t = mk("truth", v)
    x = _isinstance_of(v)
    if x is not None:
        _inst_atoms.setdefault(x, set()).add(t)
    return atom(t)


def lt0_dist(p):
    if p.op == "num":
        return TRUE if p.a[0] < 0 else FALSE
    if p.op == "phi":
        return ite(atom(p.a[0]), lt0_dist(p.a[1]), lt0_dist(p.a[2]))
    # distribute over a gated monomial if it is the only gated leaf
    if p.op == "poly" and p.gated:
        g = _top_gate(p)
        if g is not None:
            return ite(atom(g.a[0]),
                       lt0_dist(_subst1(p, g, g.a[1])), lt0_dist(_subst1(p, g, g.a[2])))
    return atom(mk("lt", p))


def _top_gate(p):
    for m, c in p.a[0]:
        for f, e in m:
            if f.op == "phi":
                return f
    return None


def _subst1(p, g, v):
    return rebuild(p, lambda k: v if k is g else k)


CONSTS = ("num", "str", "true", "false", "none")


# methods of the external libraries that always return an object
NEVER_NONE = {"getResult", "getSample", "getMarginal", "generate", "build", "computeMean", "computeQuantilePerComponent",
              "getMin", "getMax", "fit", "solve", "getSize", "getDimension", "getRealization", "getConditionalMean", "getDistribution"}


def eq_dist(x, y):
    if x is y:
        return TRUE
    if x.op == "phi":
        return ite(atom(x.a[0]), eq_dist(x.a[1], y), eq_dist(x.a[2], y))
    if y.op == "phi":
        return ite(atom(y.a[0]), eq_dist(x, y.a[1]), eq_dist(x, y.a[2]))
    if x.op in CONSTS and y.op in CONSTS:
        return FALSE
    if x.op in CONSTS:
        x, y = y, x
    if y.op in CONSTS:
        if y is NONE and x.op in ("list", "tuple", "ref", "closure", "poly", "bound", "func", "cls", "tostr",
                                  "concat", "map", "upd", "after", "fill", "dict", "lam"):
            return FALSE
        if y is NONE and x.op == "attr" and x.a[1] in ("predict_proba", "predict", "fittedvalues", "params", "resid"):
            return FALSE
        if y is NONE and x.op == "last" and eq_dist(x.a[1], NONE) is FALSE and eq_dist(x.a[2], NONE) is FALSE:
            return FALSE
        if y is NONE and x.op == "call":
            f = x.a[0]
            if f.op == "ext" and f.a[0].rsplit(".", 1)[-1][:1].isupper():
                return FALSE     # constructor of an external class
            if f.op == "ext" and f.a[0].startswith("numpy."):
                return FALSE
            if f.op == "attr" and (f.a[1] in NEVER_NONE or (f.a[0].op in ("call", "after") and f.a[1][:3] == "get" and f.a[1][3:4].isupper())):
                return FALSE
        if x.op == "ext" and y.op in CONSTS:
            return FALSE
        if x.op == "param" and len(x.a) > 1 and y is NONE:      # a value given by the caller
            return FALSE
        if y.op in ("true", "false") and x.op in ("lt", "le", "eq", "ne"):
            return truth(x) if y is TRUE else bnot(truth(x))
        return atom(eq_atom(x, y))
    if x.op == "ext" and y.op == "ext":
        return FALSE
    for u, v in ((x, y), (y, x)):       # these types have no (relevant) subclass
        if v.op == "ext" and v.a[0] in ("builtins.bool", "builtins.str") and u.op == "call" and u.a[0].op == "ext" and \
                u.a[0].a[0] == "builtins.type" and len(u.a[1]) == 1:
            return truth(mk("call", ext("builtins.isinstance"), (u.a[1][0], v), ()))
    if x.op in ("list", "tuple") and y.op in ("list", "tuple") and len(x.a[0]) != len(y.a[0]):
        return FALSE
    if x.id > y.id:
        x, y = y, x
    return atom(mk("eq", x, y))


# --------------------------------------------------------------- other constructors
def tuple_(xs):
    return mk("tuple", tuple(xs))


def list_(xs):
    return mk("list", tuple(xs))


def concat(*parts):
    out = []
    for p in parts:
        if p.op == "concat":
            ps = p.a[0]
        else:
            ps = (p,)
        for q in ps:
            if out and out[-1].op == q.op == "str":
                out[-1] = string(out[-1].a[0] + q.a[0])
            elif out and out[-1].op in ("list", "tuple") and q.op == out[-1].op:
                out[-1] = mk(q.op, out[-1].a[0] + q.a[0])
            elif q.op == "str" and q.a[0] == "":
                if not out and len(parts) == 1:
                    out.append(q)
                elif out and out[0].op == "list":
                    out.append(q)
            elif q.op in ("list", "tuple") and not q.a[0] and out:
                pass
            else:
                if len(out) == 1 and out[0].op in ("list", "tuple") and not out[0].a[0]:
                    out = [q]
                else:
                    out.append(q)
    if not out:
        return string("")
    if len(out) == 1:
        return out[0]
    return mk("concat", tuple(out))


def tostr(x):
    if x.op in ("str", "tostr"):
        return x
    if x.op == "concat" and any(p.op in ("str", "tostr") for p in x.a[0]):
        return x
    if x.op == "num" and x.a[0].denominator == 1:
        return string(str(int(x.a[0])))
    return mk("tostr", x)


def index(b, i):
    if b.op == "phi":
        return ite(atom(b.a[0]), index(b.a[1], i), index(b.a[2], i))
    if i.op == "phi" and b.op in ("list", "tuple", "dict"):
        return ite(atom(i.a[0]), index(b, i.a[1]), index(b, i.a[2]))
    if b.op in ("list", "tuple") and i.op == "num" and i.a[0].denominator == 1:
        k = int(i.a[0])
        if -len(b.a[0]) <= k < len(b.a[0]):
            return b.a[0][k]
    if b.op in ("list", "tuple") and i.op == "slice":
        s = const_slice(i)
        if s is not None:
            return mk(b.op, b.a[0][s])
    if b.op == "dict":
        for k, v in reversed(b.a[0]):
            if k is i:
                return v
            if not (k.op in CONSTS and i.op in CONSTS):
                break
    if b.op == "map" and i.op != "slice":
        dom, e = b.a
        ok = i.op != "num" or i.a[0] >= 0
        if ok and i.op not in ("tuple",):
            return subst(e, {mk("iv", dom): i})
    if b.op == "concat" and i.op == "num" and i.a[0] >= 0 and b.a[0][0].op == "list":
        if i.a[0] < len(b.a[0][0].a[0]):
            return b.a[0][0].a[0][int(i.a[0])]
    if b.op == "upd":
        if b.a[1] is i:
            return b.a[2]
        if i.op == "num" and b.a[1].op == "num":
            return index(b.a[0], i)
    if b.op == "fill" and i.op == "iv" and b.a[2] is mk("iv", b.a[1]) and i is b.a[2]:
        return b.a[3]
    # x[:][...] : a full slice is a copy
    if i.op == "slice" and i.a == (NONE, NONE, NONE):
        if b.op in ("list",):
            return b
        return mk("index", b, i)
    return mk("index", b, i)


def const_slice(i):
    vals = []
    for x in i.a:
        if x is NONE:
            vals.append(None)
        elif x.op == "num" and x.a[0].denominator == 1:
            vals.append(int(x.a[0]))
        else:
            return None
    return slice(*vals)


FULL = mk("slice", NONE, NONE, NONE)


def mkmap(dom, e):
    iv = mk("iv", dom)
    if dom.op == "seq" and e is index(dom.a[0], iv) and dom.a[0].op in ("map", "list", "concat"):
        return dom.a[0]
    return mk("map", dom, e)


def make(op, *a):
    """smart constructor used by rebuild"""
    if op == "index":
        return index(*a)
    if op == "lt":
        return cmp_lt(a[0])
    if op == "le":
        return cmp_le(a[0])
    if op == "concat":
        return concat(*a[0])
    if op == "tostr":
        return tostr(*a)
    if op == "map":
        return mkmap(*a)
    if op == "pow":
        return power(*a)
    if op == "div":
        return div(*a)
    if op == "truth":
        if a[0].op in ("true", "false"):
            return a[0]
        if a[0] is NONE:
            return FALSE
        return mk(op, *a)
    if op == "eq":
        x, y = a
        if x is y:
            return TRUE
        if x.op in CONSTS and y.op in CONSTS:
            return FALSE
        if y.op in CONSTS:
            return eq_atom(x, y)
        return mk(op, *a)
    if op == "attr" and a[0].op == "phi":
        p = a[0]
        return ite(atom(p.a[0]), make("attr", p.a[1], a[1]), make("attr", p.a[2], a[1]))
    return mk(op, *a)


def cmp_lt(p):
    if p.op == "num":
        return TRUE if p.a[0] < 0 else FALSE
    return mk("lt", p)


def cmp_le(p):
    if p.op == "num":
        return TRUE if p.a[0] <= 0 else FALSE
    return mk("le", p)


# --------------------------------------------------------------- traversal
BINDERS = {"map": (0, ()), "flatmap": (0, ()), "sum": (0, ()), "prod": (0, ()), "last": (0, (1,)), "loop": (0, (1,)), "fill": (1, (0,))}


def subst(t, m, memo=None):
    """replace terms; the variable of an iteration is not replaced where another iteration over the same domain binds it"""
    if memo is None:
        memo = {}
        memo["doms"] = {k.a[0] for k in m if k.op == "iv"}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is None:
        b = BINDERS.get(t.op)
        if b is not None and t.a[b[0]] in memo["doms"]:
            d = t.a[b[0]]
            less = {k: v for k, v in m.items() if not (k.op == "iv" and k.a[0] is d)}
            inner = {"doms": {k.a[0] for k in less if k.op == "iv"}}
            r = make(t.op, *[x if not isinstance(x, T) else
                             subst(x, m, memo) if i == b[0] or i in b[1] else subst(x, less, inner) for i, x in enumerate(t.a)])
        else:
            r = rebuild(t, lambda k: subst(k, m, memo)) if any(True for _ in kids(t)) else t
        memo[t] = r
    return r


def subterms(t):
    """all distinct subterms, memoised on the term"""
    if t._sub is None:
        seen, stack = set(), [t]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x._sub is not None and x is not t:
                seen |= x._sub
                continue
            stack.extend(kids(x))
        if len(seen) < 4000:
            t._sub = seen
        return seen
    return t._sub


def contains(t, x):
    return x in subterms(t)


def leaves(t):
    """(condition, leaf) pairs of the top decision diagram"""
    out = []

    def go(x, c):
        if c is FALSE:
            return
        if x.op == "phi":
            go(x.a[1], band(c, atom(x.a[0])))
            go(x.a[2], band(c, bnot(atom(x.a[0]))))
        else:
            out.append((c, x))
    go(t, TRUE)
    # group
    d = {}
    for c, x in out:
        d[x] = bor(d.get(x, FALSE), c)
    return [(c, x) for x, c in d.items()]


def atoms_in(t):
    return {x.a[0] for x in subterms(t) if x.op == "phi"}


def worlds(ts, limit=14, only=None):
    """enumerate gate assignments for the gates in the terms; yields (assignment, specialised terms)"""
    out = []

    def go(ts, asg):
        ats = set()
        for t in ts:
            if t.gated:
                ats |= atoms_in(t)
        if only is not None:
            ats = {a for a in ats if only(a)}
        if not ats or len(asg) >= limit:
            out.append((asg, ts))
            return
        at = min(ats, key=lambda v: v.id)
        for val in (True, False):
            new = [assume(t, at, val) for t in ts]
            go(new, asg + ((at, val),))
    go(list(ts), ())
    return out


def assume(t, at, val):
    return simp(t, atom(at) if val else bnot(atom(at)))


# --------------------------------------------------------------- printing
def show(t, depth=7):
    if depth <= 0:
        return "..."
    op, a = t.op, t.a
    d = depth - 1
    if op == "num":
        f = a[0]
        return str(f) if f.denominator == 1 else repr(float(f))
    if op == "str":
        return repr(a[0])
    if op in ("true", "false", "none", "undef"):
        return {"true": "True", "false": "False", "none": "None", "undef": "<unbound>"}[op]
    if op == "ext":
        return a[0]
    if op == "param":
        return a[0].split(":")[-1]
    if op == "poly":
        parts = []
        for m, c in a[0]:
            fs = [show(f, d) + ("" if e == 1 else "**" + str(e)) for f, e in m]
            if c == -1 and fs:
                parts.append("-" + "*".join(fs))
            elif c == 1 and fs:
                parts.append("*".join(fs))
            else:
                parts.append("*".join([show(num(c))] + fs))
        return "(" + " + ".join(parts) + ")"
    if op == "phi":
        return "(%s if %s else %s)" % (show(a[1], d), show(a[0], d), show(a[2], d))
    if op == "call":
        return "%s(%s)" % (show(a[0], d), ", ".join([show(x, d) for x in a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in a[2]]))
    if op == "attr":
        return "%s.%s" % (show(a[0], d), a[1])
    if op == "index":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in a[:2])
    if op in ("tuple", "list"):
        s = ", ".join(show(x, d) for x in a[0])
        return "(%s)" % s if op == "tuple" else "[%s]" % s
    if op == "lt":
        return "%s < 0" % show(a[0], d)
    if op == "le":
        return "%s <= 0" % show(a[0], d)
    if op == "eq":
        return "%s == %s" % (show(a[0], d), show(a[1], d))
    if op == "truth":
        return "bool(%s)" % show(a[0], d)
    return "%s<%s>" % (op, ", ".join(show(x, d) if isinstance(x, T) else (", ".join(show(y, d) if isinstance(y, T) else str(y) for y in x) if isinstance(x, tuple) else str(x)) for x in a))


def two_dim(x):
    """certainly a table (rows and columns)"""
    if x.op == "phi":
        return two_dim(x.a[1]) and two_dim(x.a[2])
    if x.op == "call" and x.a[0].op == "ext":
        h = x.a[0].a[0]
        if h in ("openturns.Sample", "numpy.vstack"):
            return True
        if h == "numpy.array" and x.a[1]:
            return two_dim(x.a[1][0])
    if x.op == "index" and x.a[1].op == "tuple":
        return len(x.a[1].a[0]) == 2 and x.a[1].a[0][1] is FULL and length(x.a[1].a[0][0]).op == "num"
    return False


def length(x):
    """number of rows (elements)"""
    if x.op == "phi":
        return ite(atom(x.a[0]), length(x.a[1]), length(x.a[2]))
    if x.op in ("list", "tuple", "str"):
        return num(len(x.a[0]))
    if x.op == "map" and x.a[0].op == "range":
        return x.a[0].a[0]
    if x.op == "map" and x.a[0].op == "seq":
        return length(x.a[0].a[0])
    if x.op == "index":
        i = x.a[1]
        if i.op == "tuple" and i.a[0]:
            if i.a[0][0] is FULL:
                return length(x.a[0])
            i = i.a[0][0]
        if i.op in ("list", "index", "phi"):
            n = length(i)
            if n.op == "num":
                return n
    if x.op == "call" and x.a[0].op == "ext":
        h = x.a[0].a[0]
        if h in ("openturns.Sample", "numpy.array") and len(x.a[1]) == 1:
            return length(x.a[1][0])
        if h in ("numpy.max", "numpy.min") and len(x.a[1]) == 2 and x.a[1][1] is num(0):
            y = x.a[1][0]
            if y.op == "call" and y.a[0].op == "ext" and y.a[0].a[0] == "numpy.array" and y.a[1]:
                y = y.a[1][0]
            if y.op in ("list", "tuple") and y.a[0]:
                return length(y.a[0][0])
        if h == "numpy.vstack" and len(x.a[1]) == 1 and x.a[1][0].op in ("tuple", "list") and all(two_dim(y) for y in x.a[1][0].a[0]):
            r = num(0)
            for y in x.a[1][0].a[0]:
                r = add(r, length(y))
            return r
    return mk("len", x)


_canon_memo = {}
_own = {}


def canon(t):
    """the variables of the loops numbered by their level of nesting, whatever they were before simplifications"""
    r = _canon_memo.get(t)
    if r is None:
        r = _canon_memo[t] = _canon(rebuild(t, canon) if any(True for _ in kids(t)) else t)
    return r


def _canon(t):
    if t.op != "loop":
        return t
    dom, init, body = t.a
    inner = [x for x in subterms(body) if x.op == "loop"]
    bound = {m for x in inner for m in _own.get(x, ())}
    own = sorted({x for x in subterms(body) if x.op == "mu" and x.a[0] is dom and x.a[1] == "#"} - bound, key=lambda x: x.a[2])
    own = own[-len(init.a[0]):] if init.op == "list" and body.op == "list" and len(init.a[0]) == len(body.a[0]) and len(own) > 1 else own[-1:]
    base = 1 + max([m.a[2] for x in inner for m in _own.get(x, ())], default=0)
    m = {x: mk("mu", dom, "#", base + i) for i, x in enumerate(own)}
    r = mk("loop", dom, init, subst(body, {k: v for k, v in m.items() if k is not v})) if any(k is not v for k, v in m.items()) else t
    _own[r] = tuple(m.values())
    return r


_base = [None]


def mark():
    """the terms made so far are constants of the analyser"""
    _base[0] = _count[0]


def forget():
    """drop every term and memo of earlier analyses: what follows does not depend on what was analysed before; nobody may still use them"""
    for k in [k for k, t in _table.items() if t.id > _base[0]]:
        del _table[k]
    _count[0] = _base[0]
    for m in (_ite_memo, _restrict_memo, _atoms_memo, _dvars_memo, _exists_memo, _topics_memo, _simp_memo, _deep_memo, _canon_memo, _own):
        m.clear()
