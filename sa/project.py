"""Loading and name resolution of the analysed package."""
import ast
import os


class FuncInfo:
    def __init__(self, node, module, cls, qualname):
        self.node, self.module, self.cls, self.qualname = node, module, cls, qualname
        self.name = node.name
        self.static = self.classm = self.prop = False
        for d in node.decorator_list:
            n = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else None)
            if n == "staticmethod":
                self.static = True
            elif n == "classmethod":
                self.classm = True
            elif n in ("property", "cached_property"):
                self.prop = True
            elif n == "setter":
                self.prop = "setter"

    @property
    def where(self):
        return "%s:%d" % (self.module.relpath, self.node.lineno)


class ClassInfo:
    def __init__(self, node, module, qualname):
        self.node, self.module, self.qualname, self.name = node, module, qualname, node.name
        self.methods, self.attrs, self.psetters = {}, {}, {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(s, module, self, qualname + "." + s.name)
                if f.prop == "setter":
                    self.psetters[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.attrs[s.target.id] = s.value
        self.bases = []          # resolved later: ClassInfo or dotted string
        self._mro = None

    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases if isinstance(b, ClassInfo)]
            seqs.append([b for b in self.bases if isinstance(b, ClassInfo)])
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in o[1:] for o in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases if not isinstance(b, ClassInfo)]

    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else []
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None


class ModuleInfo:
    def __init__(self, name, path, relpath, tree, is_pkg):
        self.name, self.path, self.relpath, self.tree, self.is_pkg = name, path, relpath, tree, is_pkg
        self.names = {}          # name -> ('ext', dotted) | ('mod', modname) | ('from', modname, name)
        self.funcs, self.classes, self.consts = {}, {}, {}
        self.stars = []


class Project:
    def __init__(self, root, package="otpod"):
        self.root = root
        self.package = package
        self.modules = {}
        pk = os.path.join(root, package)
        if not os.path.isdir(pk):
            raise AnalysisBroken("package directory %s not found" % pk)
        for d, dirs, files in os.walk(pk):
            dirs[:] = [x for x in sorted(dirs) if x != "__pycache__"]
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    name = rel[:-3].replace(os.sep, ".")
                    is_pkg = name.endswith(".__init__")
                    if is_pkg:
                        name = name[:-9]
                    with open(p, encoding="utf-8") as fd:
                        tree = ast.parse(fd.read(), p)
                    self.modules[name] = ModuleInfo(name, p, rel, tree, is_pkg)
        for m in self.modules.values():
            self._index(m)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    c.bases.append(self._resolve_base(m, b))

    def _index(self, m):
        def visit(stmts):
            for s in stmts:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        top = a.name if a.asname else a.name.split(".")[0]
                        m.names[a.asname or a.name.split(".")[0]] = ("mod", top) if top in self.modules else ("ext", top)
                elif isinstance(s, ast.ImportFrom):
                    if s.level:
                        base = m.name.split(".")
                        if not m.is_pkg:
                            base = base[:-1]
                        base = base[:len(base) - (s.level - 1)]
                        target = ".".join(base + ([s.module] if s.module else []))
                    else:
                        target = s.module
                    for a in s.names:
                        if a.name == "*":
                            m.stars.append(target)
                        elif target + "." + a.name in self.modules:
                            m.names[a.asname or a.name] = ("mod", target + "." + a.name)
                        elif target in self.modules:
                            m.names[a.asname or a.name] = ("from", target, a.name)
                        else:
                            m.names[a.asname or a.name] = ("ext", target + "." + a.name)
                elif isinstance(s, ast.FunctionDef):
                    m.funcs[s.name] = FuncInfo(s, m, None, m.name + "." + s.name)
                elif isinstance(s, ast.ClassDef):
                    m.classes[s.name] = ClassInfo(s, m, s.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.consts[t.id] = s.value
                elif isinstance(s, (ast.If, ast.Try)):
                    visit(s.body)
                    for h in getattr(s, "handlers", []):
                        visit(h.body)
                    visit(s.orelse)
        visit(m.tree.body)

    def add_module(self, name, path):
        """add a module of prescribed values (written in Python, analysed like the package)"""
        with open(path, encoding="utf-8") as fd:
            tree = ast.parse(fd.read(), path)
        m = ModuleInfo(name, path, os.path.basename(path), tree, False)
        self.modules[name] = m
        self._index(m)
        for c in m.classes.values():
            for b in c.node.bases:
                c.bases.append(self._resolve_base(m, b))
        return m

    def resolve(self, modname, name, seen=()):
        """-> ('func', FuncInfo) | ('cls', ClassInfo) | ('const', module, expr) | ('ext', dotted) | ('mod', ModuleInfo) | None"""
        m = self.modules.get(modname)
        if m is None or (modname, name) in seen:
            return None
        if name in m.funcs:
            return ("func", m.funcs[name])
        if name in m.classes:
            return ("cls", m.classes[name])
        if name in m.names:
            e = m.names[name]
            if e[0] == "ext":
                return e
            if e[0] == "mod":
                return ("mod", self.modules[e[1]])
            return self.resolve(e[1], e[2], seen + ((modname, name),))
        if name in m.consts:
            return ("const", m, m.consts[name])
        for s in m.stars:
            r = self.resolve(s, name, seen + ((modname, name),))
            if r is not None:
                return r
        if modname + "." + name in self.modules:
            return ("mod", self.modules[modname + "." + name])
        return None

    def _resolve_base(self, m, b):
        if isinstance(b, ast.Name):
            r = self.resolve(m.name, b.id)
            if r and r[0] == "cls":
                return r[1]
            if r and r[0] == "ext":
                return r[1]
            return b.id
        if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
            r = self.resolve(m.name, b.value.id)
            if r and r[0] == "ext":
                return r[1] + "." + b.attr
            if r and r[0] == "mod":
                q = self.resolve(r[1].name, b.attr)
                if q and q[0] == "cls":
                    return q[1]
            return b.attr
        return "?"

    # public view -------------------------------------------------------
    def public_class(self, name):
        r = self.resolve(self.package, name)
        if r is None or r[0] != "cls":
            raise AnalysisBroken("public class %s is not exported by %s" % (name, self.package))
        return r[1]

    def find_class(self, name):
        for m in self.modules.values():
            if name in m.classes:
                return m.classes[name]
        return None

    def find_func(self, name):
        for m in self.modules.values():
            if name in m.funcs:
                return m.funcs[name]
        return None


class AnalysisBroken(Exception):
    """an anchor the rules need has vanished: the analysis cannot be run"""
