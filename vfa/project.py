"""Source index of the analysed package: modules, imports, classes, functions."""
import ast
import hashlib
import os

from .norm import normalise

REPO = os.environ.get("VFA_REPO", "/repo")
PKG = "beep"


class AnalysisError(Exception):
    """the analysis lost an anchor or met something it cannot parse: the check has no verdict"""


class Func:
    def __init__(self, module, qual, node, cls=None, outer=None):
        self.module, self.qual, self.node, self.cls, self.outer = module, qual, node, cls, outer
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        self.full = module.name + "." + qual
        decs = [] if isinstance(node, ast.Lambda) else node.decorator_list
        names = [_decname(d) for d in decs]
        self.is_property = "property" in names
        self.is_classmethod = "classmethod" in names
        self.is_static = "staticmethod" in names
        self.setter = next((n[:-7] for n in names if n and n.endswith(".setter")), None)
        self.decorators = decs
        self.is_generator = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _own(node))
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.nonlocals = {x for n in _own(node) if isinstance(n, ast.Nonlocal) for x in n.names}
        self.locals_ = (set(self.params) | set(self.kwonly) | {self.vararg, self.kwarg}
                        | {n.id for n in _own(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}) - self.nonlocals
        body = node.body if isinstance(node.body, list) else [node.body]
        self.cells = {x for b in body for n in ast.walk(b) if isinstance(n, ast.Nonlocal) for x in n.names} & self.locals_

    def where(self):
        return f"{self.module.rel}:{self.qual}"

    def __repr__(self):
        return f"<Func {self.full}>"


def _own(fn):
    """nodes of a function body not inside nested functions"""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    st = list(body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def _decname(d):
    if isinstance(d, ast.Call):
        d = d.func
    parts = []
    while isinstance(d, ast.Attribute):
        parts.append(d.attr)
        d = d.value
    if isinstance(d, ast.Name):
        parts.append(d.id)
        return ".".join(reversed(parts))
    return None


class Class:
    def __init__(self, module, qual, node, outer=None):
        self.module, self.qual, self.node, self.outer = module, qual, node, outer
        self.name = node.name
        self.full = module.name + "." + qual
        self.methods, self.setters, self.attrs, self.classes = {}, {}, {}, {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(module, qual + "." + st.name, st, cls=self)
                if f.setter:
                    self.setters[f.setter] = f
                elif any(_decname(d) and _decname(d).endswith(".deleter") for d in st.decorator_list):
                    pass
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(module, qual + "." + st.name, st, outer=self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st.value

    def __repr__(self):
        return f"<Class {self.full}>"


class Module:
    def __init__(self, name, path, rel):
        self.name, self.path, self.rel = name, path, rel
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        try:
            self.tree = normalise(ast.parse(self.src))
        except SyntaxError as e:
            raise AnalysisError(f"{rel}: {e}")
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.funcs, self.classes, self.imports, self.assigns, self.multi = {}, {}, {}, {}, {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = Func(self, st.name, st)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(self, st.name, st)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                self.imports.update(import_names(st, self))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)):
                        for a, b in zip(t.elts, st.value.elts):
                            if isinstance(a, ast.Name):
                                self.assigns.setdefault(a.id, []).append(b)
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.assigns.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    # fallbacks do not override the main import
                    for x in h.body:
                        if isinstance(x, (ast.Import, ast.ImportFrom)):
                            for k, v in import_names(x, self).items():
                                self.imports.setdefault(k, v)
                self._scan(st.orelse)
                self._scan(st.finalbody)
            elif isinstance(st, (ast.With, ast.For, ast.While)):
                self._scan(st.body)


def import_names(st, module):
    out = {}
    if isinstance(st, ast.Import):
        for a in st.names:
            if a.asname:
                out[a.asname] = a.name
            else:
                out[a.name.split(".")[0]] = a.name.split(".")[0]
    else:
        base = st.module or ""
        if st.level:
            parts = module.name.split(".")
            if not module.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (st.level - 1)]
            base = ".".join(parts + ([st.module] if st.module else []))
        for a in st.names:
            out[a.asname or a.name] = base + "." + a.name
    return out


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__", "test_files"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                self.modules[name] = Module(name, path, rel)
        if not self.modules:
            raise AnalysisError("no sources found under " + root)

    # ------------------------------------------------------------------ lookup
    def module(self, name):
        if name not in self.modules:
            raise AnalysisError(f"module {name} not found")
        return self.modules[name]

    def func(self, full):
        m, rest = self._split(full)
        cur, parts = m, rest.split(".")
        for i, p in enumerate(parts):
            last = i == len(parts) - 1
            if last:
                d = cur.funcs if isinstance(cur, Module) else cur.methods
                if p in d:
                    return d[p]
                if isinstance(cur, Class):
                    r = self.find_method(cur, p)
                    if r:
                        return r
                # re-exported
                if isinstance(cur, Module) and p in cur.imports:
                    r = self.resolve(cur.imports[p])
                    if isinstance(r, Func):
                        return r
                raise AnalysisError(f"function {full} not found")
            if p not in cur.classes:
                raise AnalysisError(f"class {p} of {full} not found")
            cur = cur.classes[p]

    def cls(self, full):
        r = self.resolve(full)
        if not isinstance(r, Class):
            raise AnalysisError(f"class {full} not found")
        return r

    def _split(self, full):
        parts = full.split(".")
        for i in range(len(parts), 0, -1):
            m = ".".join(parts[:i])
            if m in self.modules:
                return self.modules[m], ".".join(parts[i:])
        raise AnalysisError(f"{full}: module not found")

    def resolve(self, dotted, _depth=0):
        """dotted name -> Module | Class | Func | ('var', Module, name) | None (external)"""
        if _depth > 8:
            return None
        parts = dotted.split(".")
        if parts[0] != PKG:
            return None
        for i in range(len(parts), 0, -1):
            m = ".".join(parts[:i])
            if m in self.modules:
                cur = self.modules[m]
                rest = parts[i:]
                break
        else:
            return None
        for j, p in enumerate(rest):
            if isinstance(cur, Module):
                if p in cur.funcs:
                    cur = cur.funcs[p]
                elif p in cur.classes:
                    cur = cur.classes[p]
                elif p in cur.assigns:
                    if j == len(rest) - 1:
                        return ("var", cur, p)
                    return None
                elif p in cur.imports:
                    return self.resolve(".".join([cur.imports[p]] + rest[j + 1:]), _depth + 1)
                else:
                    return None
            elif isinstance(cur, Class):
                if p in cur.classes:
                    cur = cur.classes[p]
                else:
                    f = self.find_method(cur, p)
                    if f is None:
                        return None
                    cur = f
            else:
                return None
        return cur

    def bases(self, c):
        out = []
        for b in c.node.bases:
            n = _decname(b)
            if not n:
                continue
            r = self.lookup_in(c.module, n)
            if isinstance(r, Class):
                out.append(r)
        return out

    def lookup_in(self, module, dotted):
        """resolve a dotted name as seen from module scope"""
        head, _, rest = dotted.partition(".")
        if head in module.classes or head in module.funcs or head in module.assigns:
            return self.resolve(module.name + "." + dotted)
        if head in module.imports:
            return self.resolve(module.imports[head] + ("." + rest if rest else ""))
        return None

    def mro(self, c):
        out, st = [], [c]
        while st:
            x = st.pop(0)
            if x not in out:
                out.append(x)
                st.extend(self.bases(x))
        return out

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def find_inner(self, c, name):
        for k in self.mro(c):
            if name in k.classes:
                return k.classes[name]
        return None

    def subclasses(self, c):
        out = []
        for k in self.all_classes():
            if k is not c and c in self.mro(k):
                out.append(k)
        return out

    def all_classes(self):
        def rec(k):
            yield k
            for x in k.classes.values():
                yield from rec(x)
        for m in self.modules.values():
            for k in m.classes.values():
                yield from rec(k)

    def all_funcs(self):
        for m in self.modules.values():
            yield from m.funcs.values()
        for k in self.all_classes():
            yield from k.methods.values()
            yield from k.setters.values()

    def mentions(self):
        """name -> the ids of the functions (or module tops) that use a name or attribute so called"""
        if getattr(self, "_mentions", None) is None:
            out = {}

            def go(node, owner):
                for ch in ast.iter_child_nodes(node):
                    if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        go(ch, id(ch))
                        continue
                    if isinstance(ch, ast.Name) and isinstance(ch.ctx, ast.Load):
                        out.setdefault(ch.id, set()).add(owner)
                    elif isinstance(ch, ast.Attribute):
                        out.setdefault(ch.attr, set()).add(owner)
                    go(ch, owner)
            for m in self.modules.values():
                go(m.tree, id(m))
            self._mentions = out
        return self._mentions

    def helper(self, f):
        """a private function that other code here calls: its behaviour is judged where it is called"""
        n = f.name
        if not n.startswith("_") or n.startswith("__"):
            return False
        return bool(self.mentions().get(n, set()) - {id(f.node)})

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]
