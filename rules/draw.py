"""What a drawing method draws, returns and saves."""
from sa.compare import Cmp
from sa.rt import mk
from sa.terms import NONE, FALSE, TRUE, atom, band, bor, bnot, simp, ite, num, string, eq_dist, ext, index, show, T, canon

DATA = {"plot": 99, "hlines": 3, "vlines": 3, "fill_between": 3, "imshow": 1, "contour": 1, "contourf": 1, "scatter": 2, "step": 2, "bar": 2,
        "hist": 1, "errorbar": 2, "axhline": 1, "axvline": 1, "semilogx": 99, "semilogy": 99, "loglog": 99, "pcolormesh": 3}
NAMES = {"hlines": ("y", "xmin", "xmax"), "vlines": ("x", "ymin", "ymax"), "fill_between": ("x", "y1", "y2"), "imshow": ("X",), "contour": ("Z",)}
KEEP = ("extent", "origin")
COSMETIC = {"setGrid", "setTitle", "setXTitle", "setYTitle", "setLegends", "setColors", "setLegendPosition", "setLegendCorner", "setAxes"}
PLT = "matplotlib.pyplot."


def root(t):
    """a figure or axes, whatever was done to it"""
    if t.op == "after":
        return root(t.a[0])
    if t.op == "phi":
        return ite(atom(t.a[0]), root(t.a[1]), root(t.a[2]))
    if t.op == "index":
        return index(root(t.a[0]), t.a[1])
    if t.op == "call" and t.a[0].op == "attr":
        return mk("call", mk("attr", root(t.a[0].a[0]), t.a[0].a[1]), *t.a[1:])
    return t


def csimp(t, pc):
    return canon(simp(canon(simp(t, pc)), canon(pc)))


class Item:
    def __init__(self, e, kind, data, target):
        self.pc, self.kind, self.data, self.target, self.loops, self.where = e.pc, kind, tuple(data), target, e.loops, e.where


def name_of(e):
    n = e.name
    return n if isinstance(n, str) else ""


def bare(t):
    """a graph, whatever its look"""
    while t.op == "after" and t.a[1] in COSMETIC:
        t = t.a[0]
    return t


def items(w, r, labels=None):
    """the data drawn, in order; with the names they are given, if asked"""
    out = []
    for e in r.events:
        if e.kind != "call":
            continue
        n = name_of(e)
        short = n.split(".")[-1]
        a = [w.I.freeze(x, r.st) for x in (e.args or ())]
        kw = {k: w.I.freeze(v, r.st) for k, v in (e.kw or {}).items()}
        if n == "openturns.viewer.View":
            t = kw.get("axes")
            out.append(Item(e, "View", [bare(a[0])] if a else [], t.a[0][0] if t is not None and t.op == "list" and len(t.a[0]) == 1 else t if t is not None else mk("newfigure")))
        elif labels == "ticks" and n == ".set_xticklabels" and a and not e.loops:
            out.append(Item(e, short, a[:1], e.recv))
        elif short in DATA and (n == "." + short or n == PLT + short):
            names = NAMES.get(short, ())
            d = [x for x in a if x.op != "str"][:DATA[short]]
            d += [kw[x] for x in names[len(d):] if x in kw]
            d += [mk("kw", string(k), kw[k]) for k in KEEP if k in kw]
            if labels == "label" and "label" in kw:
                d.append(mk("label", kw["label"]))
            out.append(Item(e, short, d, e.recv if n.startswith(".") else NONE))
    return out


def figures(r):
    return [e for e in r.events if e.kind == "call" and name_of(e) in (PLT + "subplots", PLT + "figure")]


def saved(r):
    return [(i, e) for i, e in enumerate(r.events) if e.kind == "call" and name_of(e).split(".")[-1] == "savefig"]


def check_saved(chk, oid, w, r, where, what):
    """the figure returned, and no other, is saved under the given name iff there is one, after everything is drawn"""
    v = w.I.freeze(r.value, r.st)
    v = csimp(v, r.st.pc)
    if v.op != "tuple" or len(v.a[0]) != 2:
        chk.bad("returns/" + oid, where, "%s: does not return a figure and its axes but %s" % (what, show(v, 4)[:200]))
        return
    fig, ax = (root(x) for x in v.a[0])
    path = csimp(r.st.pc, TRUE)
    chk.require("returns/" + oid, same_figure(fig, ax), where, "%s: returns %s and %s, not a figure and its own axes" % (what, show(fig, 4), show(ax, 4)))
    name = w.I.freeze(r.kw["name"], r.st)
    given = bnot(eq_dist(name, NONE))
    when, last, wrong = FALSE, -1, None
    for i, e in saved(r):
        a = [w.I.freeze(x, r.st) for x in (e.args or ())]
        a += [w.I.freeze(x, r.st) for k, x in (e.kw or {}).items() if k == "fname"]
        pc = csimp(csimp(e.pc, TRUE), path)
        if e.loops or not a or csimp(a[0], band(e.pc, given)) is not csimp(name, band(e.pc, given)):
            wrong = "%s: saves under %s" % (what, show(a[0], 4) if a else "no name")
        elif e.recv is not None and root(csimp(e.recv, r.st.pc)) is not fig:
            wrong = "%s: saves %s instead of the returned figure" % (what, show(e.recv, 4)[:150])
        when, last = bor(when, pc), i
    if wrong:
        chk.bad("saved/" + oid, where, wrong)
        return
    miss = csimp(band(given, bnot(when)), path)
    more = csimp(band(bnot(given), when), path)
    if miss is not FALSE or more is not FALSE:
        chk.bad("saved/" + oid, where, "%s: the figure is %s when [%s]" % (
            what, "not saved" if miss is not FALSE else "saved without being asked", show(miss if miss is not FALSE else more, 5)[:200]))
        return
    late = [e for e in r.events[last + 1:] if e.kind == "mutate" and e.recv is not None and root(csimp(e.recv, r.st.pc)) in (fig, ax)
            and name_of(e).lstrip(".") != "savefig" and csimp(band(e.pc, given), r.st.pc) is not FALSE]
    chk.require("saved/" + oid, not late, where, "%s: %s is called after the figure is saved" % (what, name_of(late[0]) if late else ""))


def same_figure(fig, ax):
    if fig.op == "phi" and ax.op == "phi" and fig.a[0] is ax.a[0]:
        return same_figure(fig.a[1], ax.a[1]) and same_figure(fig.a[2], ax.a[2])
    if fig.op == "index" and fig.a[1] is num(0) and ax.op == "index" and ax.a[0] is fig.a[0] and ax.a[1] is num(1):
        return True
    if ax.op == "call" and ax.a[0].op == "attr" and ax.a[0].a[0] is fig:
        return True
    return False


def within(p, t, seen=None):
    """p is part of t"""
    seen = set() if seen is None else seen
    if p is t:
        return True
    if id(t) in seen:
        return False
    seen.add(id(t))
    kids = [x for a in t.a for x in (a if isinstance(a, tuple) else (a,)) if isinstance(x, T)]
    return any(within(p, x, seen) for x in kids)


def item(i, cond):
    """one value standing for what is drawn: for every iteration, when and which data"""
    t = mk("tuple", (ite(cond, num(1), num(0)),) + i.data)
    for d in reversed(i.loops):
        t = mk("map", d, t)
    return t


def leaves(t):
    return leaves(t.a[1]) | leaves(t.a[2]) if t.op == "phi" else {root(canon(t))}


def maybe(t, ax):
    """is t the axes ax in some case"""
    return t is not None and ax is not None and bool(leaves(t) & leaves(ax))


def check_drawn(chk, oid, w, s, r, where, what, labels=None):
    """the same data as prescribed are drawn, under the same conditions, on the returned axes"""
    pc = csimp(band(r.st.pc, s.st.pc), TRUE)
    v = csimp(w.I.freeze(r.value, r.st), pc)
    ax = root(v.a[0][1]) if v.op == "tuple" and len(v.a[0]) == 2 else None
    cs, cr = Cmp(w.I, s.st), Cmp(w.I, r.st)
    prep = lambda x, c: [[i, csimp(csimp(i.pc, TRUE), pc), {}, c] for i in items(w, x, labels) if csimp(band(i.pc, pc), pc) is not FALSE]
    want, got = prep(s, cs), prep(r, cr)
    for x in want + got:
        x[0].data = tuple(x[3].lamify(d) for d in x[0].data)
    off = [x[0] for x in got if x[0].target is not NONE and root(csimp(csimp(x[0].target, band(pc, x[1])), pc)) is not ax]
    if off and all(maybe(x.target, ax) for x in off):
        chk.unknown("axes/" + oid, off[0].where, "%s: may be drawn elsewhere than on the returned axes" % what)
    else:
        chk.require("axes/" + oid, not off, off[0].where if off else where, "%s: drawn elsewhere than on the returned axes" % what)

    def same(a, b, cond):
        x = [tuple(i[3].norm(d, cond) for d in i[0].data) for i in (a, b)]
        return len(x[0]) == len(x[1]) and all(p is q or p.op == q.op == "label" and within(p.a[0], q.a[0]) or not cr.diff(p, q, cond, binding={}) for p, q in zip(*x))

    for a in want:
        for b in got:
            if a[0].kind != b[0].kind or a[0].loops != b[0].loops or a[1] is FALSE:
                continue
            both = csimp(band(a[1], b[1]), pc)
            if both is FALSE or csimp(band(pc, both), TRUE) is FALSE or not same(a, b, band(pc, both)):
                continue
            chk.ok("drawn/%s/%d" % (oid, len(chk.obligations)), b[0].where, "%s: %s" % (what, a[0].kind))
            a[1], b[1] = csimp(band(a[1], bnot(both)), pc), csimp(band(b[1], bnot(both)), pc)
    rest = [b for b in got if b[1] is not FALSE]
    for n, a in enumerate([a for a in want if a[1] is not FALSE]):
        b = next((b for b in rest if b[0].kind == a[0].kind), None)
        x = item(a[0], a[1])
        if b is None:
            chk.equal("drawn/%s/%d" % (oid, n), w, x, item(a[0], FALSE), where, st=r.st, pc=pc, what="%s: %s, not drawn (first: when)" % (what, a[0].kind))
            continue
        rest.remove(b)
        chk.equal("drawn/%s/%d" % (oid, n), w, x, item(b[0], b[1]), b[0].where, st=r.st, pc=pc, what="%s: %s (first: when)" % (what, a[0].kind))
    for n, b in enumerate(rest):
        chk.equal("drawn/%s/extra%d" % (oid, n), w, item(b[0], FALSE), item(b[0], b[1]), b[0].where, st=r.st, pc=pc,
                  what="%s: %s, drawn without being asked (first: when)" % (what, b[0].kind))
