"""Rule runtime: worlds (analysed objects), prescribed values, obligations."""
import json
import os
import time
import traceback

from . import terms
from .terms import (T, mk, TRUE, FALSE, NONE, UNDEF, num, string, ext, simp, band, bor, bnot, atom, truth, subterms,
                    show, atoms_in, contains, ite)
from .project import Project, AnalysisBroken
from .interp import Interp, State, Budget
from .compare import Cmp, Vocab

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def meta(name):
    return mk("meta", name)


class Result:
    def __init__(self, value, st, raised, kw, events):
        self.value, self.st, self.raised, self.kw, self.events = value, st, raised, kw, events


class World:
    """one object of a public class, analysed through construction, settings and run"""

    def __init__(self, ctx, cls, opaque=(), args=None, setters=True, run=True):
        self.ctx = ctx
        self.cls = ctx.project.public_class(cls) if isinstance(cls, str) else cls
        self.I = Interp(ctx.project, opaque=opaque)
        st = State()
        self.obj, self.raised_init, self.kw = self.I.construct(self.cls, st, args=args(self.I, st) if callable(args) else args)
        self.st_new = st.copy()
        self.n_new = len(self.I.events)
        self.raised_set = []
        if setters is True:
            self.I.setters(self.obj, st)
        elif setters:
            self.set_kw = self.I.call_setters(self.obj, st, setters)
        self.st_set = st.copy()
        self.raised_run, self.run_kw = [], {}
        self.n_set = len(self.I.events)
        m = self.cls.find("run")
        if m is not None and run:
            self.run_value, self.raised_run, self.run_kw = self.I.entry(m, st, selfv=self.obj)
        self.st = st
        self.n_run = len(self.I.events)

    @property
    def init_events(self):
        return self.I.events[:self.n_new]

    @property
    def run_events(self):
        return self.I.events[self.n_set:self.n_run]

    def has(self, name):
        return self.cls.find(name) is not None

    def method(self, name):
        m = self.cls.find(name)
        if m is None:
            raise AnalysisBroken("public method %s.%s not found" % (self.cls.name, name))
        return m

    def call(self, name, st=None, selfv=None, label=None, defaults=False, **args):
        st = (st or self.st).copy()
        fi = self.method(name)
        if defaults:
            for k, v in self.defaults(fi, st).items():
                args.setdefault(k, v)
        n = len(self.I.events)
        v, raised, kw = self.I.entry(fi, st, selfv=selfv or self.obj, args=args, label=label or "%s.%s" % (self.cls.name, name))
        return Result(v, st, raised, kw, self.I.events[n:])

    def defaults(self, fi, st):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[x.arg] = d
        return {k: self.I.ev_default(fi, d, st) for k, d in out.items()}

    def spec(self, fname, st=None, record=False, **args):
        """value prescribed by a function of spec.py, in the given state; with what it calls, if asked"""
        st = (st or self.st).copy()
        fi = self.ctx.spec.funcs[fname]
        quiet, n = self.I.quiet, len(self.I.events)
        self.I.quiet = 0 if record else quiet + 1
        try:
            v, raised, kw = self.I.entry(fi, st, args=args, label="spec." + fname)
        finally:
            self.I.quiet = quiet
        return Result(v, st, raised, kw, self.I.events[n:])

    def param(self, name):
        """term of a constructor parameter"""
        if name not in self.kw:
            raise AnalysisBroken("constructor parameter %s of %s not found" % (name, self.cls.name))
        return self.kw[name]

    def field(self, name, st=None):
        return self.I.field(self.obj, name, st or self.st)


class Ctx:
    def __init__(self, repo=REPO):
        self.project = Project(repo)
        self.spec = self.project.add_module("spec", os.path.join(HERE, "spec", "spec.py"))
        self._worlds, self.done = {}, []
        terms.mark()

    def afresh(self):
        """start an independent analysis"""
        self.done += [w.I.stats for w in self._worlds.values()]
        self._worlds.clear()
        terms.forget()

    def world(self, cls, **k):
        key = (cls, tuple(sorted((a, str(b)) for a, b in k.items())))
        if key not in self._worlds:
            self._worlds[key] = World(self, cls, **k)
        return self._worlds[key]


class Check:
    """collects the obligations of one property"""

    def __init__(self, pid, ctx):
        self.pid, self.ctx = pid, ctx
        self.obligations = []
        self.rules = {}
        self.t0 = time.time()

    def rule(self, rid, text):
        self.rules[rid] = text

    def add(self, oid, status, where="", detail=""):
        self.obligations.append({"id": oid, "status": status, "where": where, "detail": detail})

    def ok(self, oid, where="", detail=""):
        self.add(oid, "ok", where, detail)

    def bad(self, oid, where, detail):
        self.add(oid, "violated", where, detail)

    def unknown(self, oid, where, detail):
        self.add(oid, "undecided", where, detail)

    def require(self, oid, cond, where, detail):
        (self.ok(oid, where) if cond else self.bad(oid, where, detail))

    # a rule body that cannot cope with an unusual tree gives no verdict for its obligations
    def guarded(self, oid, fn, *a):
        try:
            fn(*a)
        except AnalysisBroken as e:
            self.bad(oid, "otpod", "missing: %s" % e)
        except (Budget, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError,
                ZeroDivisionError, OverflowError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unknown(oid, "", "analysis gave up: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))

    def equal(self, oid, w, spec, code, where="", st=None, pc=None, binding=None, what="", extra_vocab=(), known=()):
        """the value computed by the code is the prescribed one, on every path allowed by pc

        known: (id of a recorded finding, the value the recorded defect gives); only exactly that value is that finding"""
        st = st or w.st
        if isinstance(spec, Result):
            spec = Cmp(w.I, spec.st).lamify(w.I.freeze(spec.value, spec.st))
        if isinstance(code, Result):
            st = code.st
            code = w.I.freeze(code.value, code.st)
        c = Cmp(w.I, st)
        pc = st.pc if pc is None else pc
        s, t = c.norm(spec, pc), c.norm(code, pc)
        b = {} if binding is None else binding
        mm = c.diff(s, t, pc, binding=b)
        vocab = Vocab(s, *[c.norm(x, pc) for x in extra_vocab], *[x for x in b.values()], mine=[s], theirs=[t])
        if not mm:
            self.ok(oid, where, "%d term pairs" % max(1, c.pairs))
            return True
        for kid, variant in known:
            if isinstance(variant, Result):
                variant = Cmp(w.I, variant.st).lamify(w.I.freeze(variant.value, variant.st))
            if not c.diff(c.norm(variant, pc), t, pc, binding={}):
                self.bad(oid, where, "%s: finding %s" % (what or "value", kid))
                return False
        why = []
        for p, q, ppc in mm:
            r = c.decided(p, q, ppc, vocab)
            if r is None:
                cond = show(simp(ppc, pc), 6) if ppc is not pc else "always"
                self.bad(oid, where, "%s: prescribed %s, found %s [%s]" % (what or "value", show(p, 6)[:400], show(q, 6)[:400], cond[:300]))
                return False
            why.append(r)
        self.unknown(oid, where, "%s: not decided: %s" % (what or "value", "; ".join(sorted(set(why)))[:300]))
        return None


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    with open(p) as fd:
        return json.load(fd)


def finish(chk, tier, seed, level="other", assumptions=()):
    known = [k for k in load_known()["findings"] if k["property"] == chk.pid]
    viol, kf = [], []
    for o in chk.obligations:
        if o["status"] == "violated":
            k = next((k for k in known if o["detail"].endswith(": finding " + k["id"])), None)
            if k:
                o["status"] = "known-finding"
                kf.append((k, o))
            else:
                viol.append(o)
    # many obligations: the discharged ones are listed per place, the others one by one
    listed, places = chk.obligations, {}
    if len(listed) > 1500:
        listed = [o for o in chk.obligations if o["status"] != "ok"]
        for o in chk.obligations:
            if o["status"] == "ok":
                p = places.setdefault("%s %s" % (o["id"].split("/")[0], o["where"]), {"discharged": 0, "first": o["id"]})
                p["discharged"] += 1
                p["last"] = o["id"]
    n = {}
    for o in chk.obligations:
        n[o["status"]] = n.get(o["status"], 0) + 1
    fns, calls, br, lo = set(), 0, 0, 0
    for s in chk.ctx.done + [w.I.stats for w in chk.ctx._worlds.values()]:
        fns |= s["functions"]
        calls += s["calls"]
        br += s["branches"]
        lo += s["loops"]
    ev = {"property": chk.pid, "tier": tier, "seed": seed, "level": level,
          "coverage": {"explanation": "Static value-flow analysis of /repo/otpod: each obligation compares the normal form of the value or "
                                      "effect the source computes, on every path and for symbolic inputs, with the prescribed one.",
                       "obligations": len(chk.obligations), "discharged": n.get("ok", 0), "undecided": n.get("undecided", 0),
                       "violated": len(viol), "known_findings": len(kf), "functions_analysed": len(fns),
                       "call_sites_analysed": calls, "branches": br, "loops": lo,
                       "modules": sorted(m.relpath for m in chk.ctx.project.modules.values() if m.name != "spec"),
                       "rules": chk.rules,
                       "obligation_list": listed, "discharged_by_place": places},
          "wall_s": round(time.time() - chk.t0, 2),
          "assumptions": list(assumptions),
          "violations": len(viol)}
    d = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, chk.pid + ".json"), "w") as fd:
        json.dump(ev, fd, indent=1)
    for k in known:
        if any(x is k for x, _ in kf):
            print("KNOWN-FINDING: property=%s %s" % (chk.pid, k["text"]))
    for o in chk.obligations:
        if o["status"] == "undecided":
            print("note: %s undecided: %s %s" % (o["id"], o["where"], o["detail"][:200]))
    print("%s: %d obligations, %d discharged, %d undecided, %d violated, %d known findings, %.1f s" % (
        chk.pid, len(chk.obligations), n.get("ok", 0), n.get("undecided", 0), len(viol), len(kf), time.time() - chk.t0))
    for i, o in enumerate(viol):
        path = os.path.join(d, "replay", "%s-%d.json" % (chk.pid, i))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as fd:
            json.dump(o, fd, indent=1)
        print("  %s at %s: %s" % (o["id"], o["where"], o["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (chk.pid, path))
    return 1 if viol else 0


class Follow(World):
    """an object of another class built from an analysed and run one, in the same interpreter"""

    def __init__(self, base, cls, args=None, setters="", before=None, run=True):
        self.ctx, self.base, self.I = base.ctx, base, base.I
        self.cls = cls if not isinstance(cls, str) else self.ctx.project.public_class(cls)
        st = base.st.copy()
        n = len(self.I.events)
        self.obj, self.raised_init, self.kw = self.I.construct(self.cls, st, args=args)
        self.n_new = len(self.I.events)
        self.st_new = st.copy()
        self.set_kw = self.I.call_setters(self.obj, st, setters) if setters else {}
        self.st_set = st.copy()
        self.n_set = len(self.I.events)
        self.raised_run, self.run_kw = [], {}
        m = self.cls.find("run")
        if m is not None and run:
            self.run_value, self.raised_run, self.run_kw = self.I.entry(m, st, selfv=self.obj)
        self.st = st
        self.n_run = len(self.I.events)
