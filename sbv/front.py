"""Program front end: modules, imports, functions and classes of the tree."""
from __future__ import annotations

import ast
import os

REPO = os.environ.get("SBV_REPO", "/repo")


class AnalysisBroken(Exception):
    """The analysed tree lacks something the rule needs (error exit)."""


class Func:
    def __init__(self, mod, qual, node, cls=None):
        self.mod = mod
        self.qual = qual            # e.g. "foo" or "Cls.foo"
        self.node = node
        self.cls = cls

    @property
    def name(self):
        return self.mod.name + ":" + self.qual

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def where(self, node=None):
        n = node if node is not None else self.node
        return "%s:%d (%s)" % (self.mod.rel, getattr(n, "lineno", 0), self.qual)


class Cls:
    def __init__(self, mod, node):
        self.mod = mod
        self.node = node
        self.name = mod.name + ":" + node.name
        self.methods = {}
        self.attrs = {}
        self.getters = {}
        self.setters = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef,)):
                deco = [dotted_name(d) for d in s.decorator_list]
                if "property" in deco or "cached_property" in deco or any((d or "").endswith(".cached_property") for d in deco):
                    self.getters[s.name] = Func(mod, node.name + "." + s.name, s, self)
                    continue
                if any(d and d.endswith(".setter") for d in deco):
                    self.setters[s.name] = Func(mod, node.name + "." + s.name, s, self)
                    continue
                self.methods[s.name] = Func(mod, node.name + "." + s.name, s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value


CHANGERS = {"update", "append", "extend", "insert", "setdefault", "pop", "remove", "sort", "clear", "popitem", "add",
            "discard", "reverse"}


class Module:
    def __init__(self, prog, name, path, tree, is_pkg=False, source=""):
        self.prog = prog
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, prog.root)
        self.tree = tree
        self.is_pkg = is_pkg
        self.source = source
        self.funcs = {}
        self.classes = {}
        self.imports = {}       # local name -> dotted target
        self.assigns = {}       # name -> list of value nodes
        self.order = []
        self.muts = {}          # name -> module-level statements changing it in place
        self.fattrs = {}        # (function, attribute) -> value node
        self._scan(tree.body)

    def _scan(self, body):
        for s in body:
            self._scan_stmt(s)

    def _scan_stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                and isinstance(s.value.func.value, ast.Name) and s.value.func.attr in CHANGERS:
            self.muts.setdefault(s.value.func.value.id, []).append(s)
        elif isinstance(s, (ast.Assign, ast.AugAssign, ast.Delete)):
            for t in (s.targets if not isinstance(s, ast.AugAssign) else [s.target]):
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    self.muts.setdefault(t.value.id, []).append(s)
        if isinstance(s, ast.FunctionDef):
            # keep the first definition when a try/except fallback redefines
            if s.name not in self.funcs:
                self.funcs[s.name] = Func(self, s.name, s)
        elif isinstance(s, ast.ClassDef):
            self.classes[s.name] = Cls(self, s)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for k, v in import_targets(s, self).items():
                self.imports.setdefault(k, v)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                    self.fattrs[(t.value.id, t.attr)] = s.value
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.assigns.setdefault(n.id, []).append((t, s.value, s))
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            self.assigns.setdefault(s.target.id, []).append((s.target, s.value, s))
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            self.assigns.setdefault(s.target.id, []).append((None, s.value, s))
        elif isinstance(s, (ast.For, ast.While)):
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.assigns.setdefault(n.id, []).append((None, None, s))
            self._scan(s.body)
        elif isinstance(s, ast.If):
            self._scan(s.body)
            self._scan(s.orelse)
        elif isinstance(s, ast.Try):
            self._scan(s.body)
            imp = s.body and all(isinstance(x, (ast.Import, ast.ImportFrom)) for x in s.body)
            for h in s.handlers:
                if not imp:  # the dependencies are installed: a fallback for a failed import is not taken
                    self._scan(h.body)
            self._scan(s.orelse)
            self._scan(s.finalbody)
        elif isinstance(s, ast.With):
            self._scan(s.body)


def import_targets(s, mod):
    out = {}
    if isinstance(s, ast.Import):
        for a in s.names:
            if a.asname:
                out[a.asname] = a.name
            else:
                out[a.name.split(".")[0]] = a.name.split(".")[0]
    else:
        base = s.module or ""
        if s.level:
            pk = mod.name.split(".")
            if not mod.is_pkg:
                pk = pk[:-1]
            if s.level > 1:
                pk = pk[:-(s.level - 1)]
            base = ".".join(pk + ([base] if base else []))
        if base == "__future__":
            return out
        for a in s.names:
            if a.name == "*":
                out["*" + base] = base
            else:
                out[a.asname or a.name] = base + "." + a.name
    return out


class Program:
    def __init__(self, root=None, package="skbeam"):
        self.root = root or REPO
        self.package = package
        self.modules = {}
        self.errors = []
        self._load()

    def _load(self):
        top = os.path.join(self.root, self.package)
        if not os.path.isdir(top):
            raise AnalysisBroken("package directory missing: " + top)
        for d, dirs, files in os.walk(top):
            dirs[:] = [x for x in dirs if x not in ("tests", "__pycache__", "testing")]
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                pkg = False
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                    pkg = True
                src = open(p, encoding="utf-8").read()
                try:
                    tree = ast.parse(src)
                except SyntaxError as e:
                    raise AnalysisBroken("cannot parse %s: %s" % (p, e))
                self.modules[rel] = Module(self, rel, p, tree, pkg, src)

    def add_module(self, name, path, tree, source=""):
        m = Module(self, name, path, tree, False, source)
        self.modules[name] = m
        return m

    def resolve(self, dotted, depth=0):
        """Resolve a dotted path to ('mod',Module)|('func',Func)|('cls',Cls)|
        ('glob',Module,name)|('ext',dotted)."""
        if depth > 8:
            return ("ext", dotted)
        parts = dotted.split(".")
        for k in range(len(parts), 0, -1):
            mn = ".".join(parts[:k])
            if mn in self.modules:
                m = self.modules[mn]
                rest = parts[k:]
                if not rest:
                    return ("mod", m)
                return self.member(m, rest, depth)
        return ("ext", dotted)

    def member(self, m, rest, depth=0):
        n = rest[0]
        if n in m.funcs and len(rest) == 1:
            return ("func", m.funcs[n])
        if n in m.classes:
            c = m.classes[n]
            if len(rest) == 1:
                return ("cls", c)
            if len(rest) == 2 and rest[1] in c.methods:
                return ("func", c.methods[rest[1]])
            return ("ext", m.name + "." + ".".join(rest))
        if n in m.assigns and len(rest) == 1:
            return ("glob", m, n)
        if n in m.imports:
            return self.resolve(".".join([m.imports[n]] + rest[1:]), depth + 1)
        for k, base in m.imports.items():
            if k.startswith("*"):
                r = self.resolve(base + "." + ".".join(rest), depth + 1)
                if r[0] != "ext":
                    return r
        sub = m.name + "." + n
        if sub in self.modules:
            if len(rest) == 1:
                return ("mod", self.modules[sub])
            return self.member(self.modules[sub], rest[1:], depth + 1)
        return ("ext", m.name + "." + ".".join(rest))

    def func(self, spec):
        """'skbeam.core.utils:radial_grid' or 'mod:Cls.meth' -> Func, following
        re-exports; None when it does not exist."""
        mn, q = spec.split(":")
        m = self.modules.get(mn)
        if m is None:
            return None
        r = self.member(m, q.split("."))
        if r[0] == "func":
            return r[1]
        if r[0] == "ext" and "." in q:
            c, meth = q.split(".", 1)
            rc = self.member(m, [c])
            if rc[0] == "cls":
                return self.method(rc[1], meth)
        return None

    def method(self, cls, name, seen=None, kind="methods"):
        seen = seen or set()
        if cls.name in seen:
            return None
        seen.add(cls.name)
        if name in getattr(cls, kind):
            return getattr(cls, kind)[name]
        for b in cls.node.bases:
            d = dotted_name(b)
            if d is None:
                continue
            r = self.member(cls.mod, d.split("."))
            if r[0] == "cls":
                f = self.method(r[1], name, seen, kind)
                if f is not None:
                    return f
        return None

    def all_functions(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for d in (c.methods, c.getters, c.setters):
                    for f in d.values():
                        yield f


def dotted_name(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted_name(node.value)
        return None if b is None else b + "." + node.attr
    return None
