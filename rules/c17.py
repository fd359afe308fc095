"""C17: verbosity and graphs change nothing but what is displayed."""
from sa.compare import feasible
from sa.rt import World, show
from sa.terms import num, NONE, TRUE, FALSE, band, bnot, simp, subterms, truth, atom, atoms_in, canon, string, eq_dist
from sa.project import AnalysisBroken
from .common import ADAPT, ALL, CHAOS, HITMISS, KRIGING, LINEAR, Mode, RESULT, where

PRINTS = {"builtins.print", "sys.stdout.write", "sys.stderr.write", "sys.stdout.writelines", "sys.stdout.flush", "pprint.pprint", "sys.__stdout__.write"}
FILES = {"savefig", "open", "makedirs", "mkdir", "save", "savetxt", "dump", "write_text", "write_bytes", "exportToCSVFile", "touch", "rename", "remove"}
WINDOWS = {"matplotlib.pyplot.show", "matplotlib.pyplot.pause", "matplotlib.pyplot.draw"}
RANDOM = {"getSample", "getRealization", "generate", "Sample", "rvs", "permutation", "shuffle", "choice"}
ADAPTIVE = {ADAPT: num(2), HITMISS: num(7)}   # two iterations


def check(chk, ctx):
    chk.rule("silent", "run() writes to the terminal only if verbosity is enabled; before and after run() nothing is written, unless asked")
    chk.rule("same", "no result of run(), and no error, depends on the verbosity or on the graph settings")
    chk.rule("draws", "no random number is drawn, and no model is fitted, only because of the verbosity")
    chk.rule("graph", "figures are shown in run() only if the graph is active; files are written in run() only into the given directory, one per iteration")
    for c in ALL + ["PODSummary"]:
        for a, b, x in ((None, None, False), ("n", "n", True), ("n", None, "f")):
            if c == HITMISS and x is not False:
                continue
            for s in ("", "-setVerbose -setGraphActive -setMethodActive") + (("-setVerbose -setGraphActive -" + RESULT[c],) if c in RESULT else ()):
                m = Mode(ctx, c, a, b, x, setters=s, **({"nMorePoints": ADAPTIVE[c]} if c in ADAPTIVE else {}))
                for asked in (False, True) if c == HITMISS and not s else (False,):
                    if asked:
                        m = Mode(ctx, c, a, b, x, setters=s, nMorePoints=num(7), detection=NONE)
                        m.name += " labels"
                    chk.guarded("run/%s" % m, display, chk, ctx, m)


def display(chk, ctx, m):
    w = World(ctx, m.cls, args=m, setters=m.setters, run=False)
    st = w.st.copy()
    I, obj = w.I, w.obj
    _, _, kw = I.entry(w.method("setVerbose"), st, selfv=obj, args={w.method("setVerbose").node.args.args[1].arg: "n"}, label="display.verbose")
    mine = {I.freeze(v, st): "verbosity" for v in kw.values()}
    given = {}
    if w.has("setGraphActive"):
        fi = w.method("setGraphActive")
        names = [x.arg for x in fi.node.args.args][1:]
        _, _, given = I.entry(fi, st, selfv=obj, args={n: "n" for n in names if n != "directory"}, label="display.graph")
        given = {k: I.freeze(v, st) for k, v in given.items()}
        mine.update({v: "graph setting %s" % k for k, v in given.items()})
    verbose = [v for v, k in mine.items() if k == "verbosity"]
    for v in verbose:
        st.pc = band(st.pc, truth(v)) if False else st.pc
    n = len(I.events)
    at = where(w, "run")
    pc0 = st.pc
    _, raised, _ = I.entry(w.method("run"), st, selfv=obj, label="display.run")
    events = I.events[n:]
    on = truth(verbose[0])
    off = bnot(on)
    has = lambda t: sorted({mine[x] for x in subterms(t) if x in mine})
    quiet = lambda pc: simp(simp(pc, pc0), off) is FALSE
    # terminal
    k = 0
    for e in events:
        if e.kind == "call" and e.name in PRINTS:
            k += 1
            chk.require("silent/%s/%d" % (m, k), quiet(e.pc), e.where, "%s although verbosity is disabled, if %s" % (e.name, show(simp(simp(e.pc, pc0), off), 5)[:200]))
    chk.ok("silent/%s" % m, at, "%d writes to the terminal" % k)
    # results
    own = {kk: v for kk, v in st.heap.items() if kk[0] == obj.a[0] and not str(kk[1]).startswith("$")}
    held = {kk[1] for kk, v in w.st.heap.items() if kk[0] == obj.a[0]}
    inputs = {kk[1] for kk, v in own.items() if I.freeze(v, st) in mine}
    for (o, name), v in sorted(own.items(), key=lambda i: str(i[0])):
        if name in inputs:
            continue
        d = has(I.freeze(v, st)) if not isinstance(v, (list, tuple)) else []
        if w.cls.name == "PODSummary" and v.op == "ref":
            d = sorted({x for kk, u in st.heap.items() if kk[0] == v.a[0] and not str(kk[1]).startswith("$") and kk[1] != "_verbose" for x in has(I.freeze(u, st))})
        chk.require("same/%s/%s" % (m, name), not d, at, "%s depends on the %s" % (name, ", ".join(d)))
    for r in raised:
        pc = simp(simp(r.st.pc, pc0), pc0)
        bad = [mine[v] for at_ in atoms_in(pc) for v in subterms(at_) if v in mine]
        if bad and feasible(r.st.pc):
            chk.bad("same/%s/raise %s" % (m, r.fn), at, "an exception of %s depends on the %s" % (r.fn, bad[0]))
    # random numbers
    for e in events:
        if e.kind != "call" or not isinstance(e.name, str) or e.name.split(".")[-1] not in RANDOM and not e.name.endswith((".run", ".fit")):
            continue
        if e.name == "openturns.Sample":
            continue
        bad = sorted({mine[v] for a in atoms_in(simp(e.pc, pc0)) for v in subterms(a) if mine.get(v) == "verbosity"})
        chk.require("draws/%s/%s" % (m, e.where), not bad, e.where, "%s is called depending on the %s" % (e.name, ", ".join(bad)))
    # figures and files
    graph = truth(given["graphVerbose"]) if "graphVerbose" in given else truth(next(iter(given.values()))) if given else FALSE
    folder = given.get("directory")
    names = []
    for e in events:
        if e.kind != "call" or not isinstance(e.name, str):
            continue
        short = e.name.split(".")[-1]
        if e.name in WINDOWS:
            chk.require("graph/%s/%s" % (m, e.where), simp(simp(e.pc, pc0), bnot(graph)) is FALSE, e.where, "%s although no graph is asked" % e.name)
        elif short in FILES and (e.name.startswith(("os.", "builtins.", "matplotlib.", "numpy.", "pickle.", "openturns.", "shutil.", "io.")) or short in ("savefig",)):
            args = [I.freeze(a, st) for a in e.args] + [I.freeze(v, st) for v in (e.kw or {}).values()]
            ok = folder is not None and args and folder in subterms(args[0]) and simp(simp(e.pc, pc0), eq_dist(folder, NONE)) is FALSE and simp(simp(e.pc, pc0), bnot(graph)) is FALSE and \
                any(mine.get(v, "").startswith("graph") for a in atoms_in(e.pc) for v in subterms(a))
            chk.require("graph/%s/%s" % (m, e.where), ok, e.where, "%s writes %s without being asked" % (e.name, show(args[0], 4)[:150] if args else ""))
            if short == "savefig" and ok:

                it = any(x.op in ("iv", "mu") for x in subterms(args[0])) or args[0] not in names
                names.append(args[0])
                chk.require("graph/%s/%s.name" % (m, e.where), it, e.where, "the figures of all iterations are saved under the same name %s" % show(args[0], 4)[:150])
    if given:
        drawn = [e for e in events if e.kind == "rcall" and e.name.endswith(".drawPOD")]
        ok = drawn and all(given[k] in cases(e.kw[k]) for e in drawn for k in ("probabilityLevel", "confidenceLevel"))
        chk.require("graph/%s/levels" % m, ok, at, "the graph is not drawn at the levels given")


def cases(t):
    """values a term may have"""
    return cases(t.a[1]) | cases(t.a[2]) if t.op == "phi" else {t}
