"""C front end: /repo's C sources -> a small syntax tree (via clang's AST) and,
for the value-graph analyses, an equivalent Python syntax tree.

Nothing is compiled or run: clang only parses.
"""
from __future__ import annotations

import ast
import copy
import glob
import json
import keyword
import os
import re
import subprocess
import sysconfig

from .front import AnalysisBroken

HERE = os.path.dirname(os.path.abspath(__file__))
INC = os.path.join(HERE, "include")


class N:
    """one C construct"""
    __slots__ = ("kind", "line", "op", "name", "type", "kids", "value", "extra", "end")

    def __init__(self, kind, line, kids=(), op=None, name=None, type=None, value=None, extra=None, end=None):
        self.kind, self.line, self.kids, self.op, self.name = kind, line, list(kids), op, name
        self.type, self.value, self.extra, self.end = type, value, extra, end

    def __repr__(self):
        return "%s%s%s@%s" % (self.kind, ":" + self.op if self.op else "", "(" + self.name + ")" if self.name else "", self.line)

    def walk(self):
        yield self
        for k in self.kids:
            if k is not None:
                yield from k.walk()


def includes():
    out = [INC]
    for p in ("/usr/include/python3.12", sysconfig.get_paths().get("include")):
        if p and os.path.exists(os.path.join(p, "Python.h")):
            out.append(p)
            break
    for pat in ("/opt/venv/lib/python3*/site-packages/numpy/_core/include", "/opt/venv/lib/python3*/site-packages/numpy/core/include",
                "/opt/veriftools/pyvenv/lib/python3*/site-packages/numpy/_core/include"):
        g = sorted(glob.glob(pat))
        if g:
            out.append(g[0])
            break
    return out


def dump(path):
    cmd = ["clang", "-fopenmp", "-fsyntax-only", "-Xclang", "-ast-dump=json"]
    for i in includes():
        cmd += ["-I" + i]
    cmd += ["-I" + os.path.dirname(path), path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if not r.stdout:
        raise AnalysisBroken("clang cannot parse %s: %s" % (path, r.stderr.decode()[-300:]))
    errs = [l for l in r.stderr.decode().splitlines() if " error: " in l]
    if errs:
        raise AnalysisBroken("clang: " + errs[0])
    return json.loads(r.stdout)


_API = {}


def api_table():
    if not _API:
        for i in includes():
            p = os.path.join(i, "numpy", "__multiarray_api.h")
            if os.path.exists(p):
                for m in re.finditer(r"#define (\w+)\s*\\?\s*\n?(?:[^#]*?)PyArray_API\[(\d+)\]", open(p).read()):
                    _API[int(m.group(2))] = m.group(1)
                break
    return _API


def ctype(t):
    """the written type, or what a typeof stands for"""
    q = t.get("qualType")
    return t.get("desugaredQualType", q) if q and "typeof" in q else q


class CFile:
    def __init__(self, root, rel):
        self.root, self.rel = root, rel
        self.path = os.path.join(root, rel)
        if not os.path.exists(self.path):
            raise AnalysisBroken("anchor vanished: " + rel)
        self.lines = open(self.path, errors="replace").read().splitlines()
        self.funcs = {}
        self.records = {}
        self.globals = {}
        self._line = 0
        self._file = None
        j = dump(self.path)
        self._locs(j)
        for n in j.get("inner", []):
            if n.get("kind") == "FunctionDecl" and any(x.get("kind") == "CompoundStmt" for x in n.get("inner", [])) \
                    and n.get("_file") == self.path:
                f = self.function(n)
                self.funcs[f.name] = f
            elif n.get("kind") == "VarDecl" and n.get("_file") == self.path:
                self.globals[n["name"]] = self.decl(n)
            elif n.get("kind") == "RecordDecl":
                fs = [(x["name"], x["type"]["qualType"]) for x in n.get("inner", []) if x.get("kind") == "FieldDecl" and "name" in x]
                self._last = fs
            elif n.get("kind") == "TypedefDecl" and getattr(self, "_last", None) is not None:
                if (n.get("_file") or "").startswith(self.root):
                    self.records[n["name"]] = self._last
                self._last = None

    def reach(self, f):
        """functions of this file reachable from f"""
        out, todo = set(), [f]
        while todo:
            g = todo.pop()
            if g in out or g not in self.funcs:
                continue
            out.add(g)
            todo += [x.name for x in self.funcs[g].walk() if x.kind == "call" and x.name]
        return out

    def threaded(self):
        """functions that run a parallel region, directly or not"""
        if not hasattr(self, "_thr"):
            t = {f for f, n in self.funcs.items() if any(x.kind == "omp" and x.op == "Parallel" or x.kind == "call" and (x.name or "").startswith(
                "omp_get") for x in n.walk())}
            while True:
                m = {f for f, n in self.funcs.items() if any(x.kind == "call" and x.name in t for x in n.walk())} - t
                if not m:
                    break
                t |= m
            self._thr = t
        return self._thr

    # clang prints a line only when it changes
    def _locs(self, root):
        def loc(l):
            if not isinstance(l, dict):
                return
            for k in ("spellingLoc", "expansionLoc"):
                if k in l:
                    loc(l[k])
            if "file" in l:
                self._file = l["file"]
            if "line" in l:
                self._line = l["line"]

        stack = [iter([root])]
        while stack:
            try:
                n = next(stack[-1])
            except StopIteration:
                stack.pop()
                continue
            if not isinstance(n, dict):
                continue
            if "loc" in n:
                loc(n["loc"])
                lf, ll = self._file, self._line
            else:
                lf = ll = None
            if "range" in n:
                r = n["range"]
                loc(r.get("begin", {}))
                n["_line"], bf = self._line, self._file
                loc(r.get("end", {}))
                n["_end"] = self._line
                n["_file"] = lf or bf
            else:
                n["_line"], n["_file"] = self._line, self._file
            if ll:
                n["_loc"] = ll
            stack.append(iter(n.get("inner", [])))

    def function(self, n):
        ps, body = [], None
        for x in n.get("inner", []):
            if x.get("kind") == "ParmVarDecl":
                ps.append((x.get("name", "_"), x["type"]["qualType"]))
            elif x.get("kind") == "CompoundStmt":
                body = self.stmt(x)
        return N("function", n["_line"], [body], name=n["name"], type=n["type"]["qualType"], extra=ps)

    def decl(self, x):
        init = [y for y in x.get("inner", []) if y.get("kind") and not y["kind"].endswith("Attr")]
        return N("decl", x["_line"], [self.expr(init[0])] if init and x.get("init") else [], name=x["name"],
                 type=ctype(x["type"]), extra=x.get("storageClass"))

    def pragma(self, line):
        out = ""
        l = line - 1
        while l < len(self.lines):
            out += self.lines[l].rstrip("\\")
            if not self.lines[l].endswith("\\"):
                break
            l += 1
        d = {}
        for m in re.finditer(r"(\w+)\s*\(([^)]*)\)", out):
            d.setdefault(m.group(1), []).extend(x.strip() for x in m.group(2).split(",")) if ":" not in m.group(2) else \
                d.setdefault(m.group(1), []).extend(x.strip() for x in m.group(2).split(":")[1].split(","))
        d["words"] = re.findall(r"\w+", re.sub(r"\([^)]*\)", "", out.split("omp", 1)[-1]))
        return d

    def api_name(self, f):
        """the numpy C API is called through a table of pointers"""
        for x in f.walk():
            if x.kind == "index" and x.kids[1].kind == "num" and any(y.kind == "ref" and (y.name or "").endswith("PyArray_API")
                                                                    for y in x.kids[0].walk()):
                return api_table().get(int(x.kids[1].value))
        return None

    def stmt(self, n):
        k = n.get("kind")
        ln = n["_line"] if "_line" in n else 0
        inner = n.get("inner", [])
        if k == "CompoundStmt":
            return N("block", ln, [self.stmt(x) for x in inner], end=n.get("_end"))
        if k == "DeclStmt":
            return N("decls", ln, [self.decl(x) for x in inner if x.get("kind") == "VarDecl"])
        if k == "IfStmt":
            xs = [x for x in inner]
            return N("if", ln, [self.expr(xs[0]), self.stmt(xs[1]), self.stmt(xs[2]) if len(xs) > 2 else None])
        if k == "ForStmt":
            init, _, cond, inc, body = inner
            return N("for", ln, [self.stmt(init) if init.get("kind") else None, self.expr(cond) if cond.get("kind") else None,
                                 self.stmt(inc) if inc.get("kind") else None, self.stmt(body)])
        if k == "WhileStmt":
            return N("while", ln, [self.expr(inner[0]), self.stmt(inner[-1])])
        if k == "DoStmt":
            return N("do", ln, [self.stmt(inner[0]), self.expr(inner[1])])
        if k == "ReturnStmt":
            return N("return", ln, [self.expr(inner[0])] if inner else [])
        if k == "GotoStmt":
            return N("goto", ln, name=n.get("targetLabelDeclId"))
        if k == "LabelStmt":
            return N("label", ln, [self.stmt(x) for x in inner], name=n.get("declId"), value=n.get("name"))
        if k in ("BreakStmt", "ContinueStmt", "NullStmt"):
            return N(k[:-4].lower(), ln)
        if k and k.startswith("OMP"):
            body = None
            for x in inner:
                y = x
                if y.get("kind") == "CapturedStmt":
                    y = y["inner"][0]
                    if y.get("kind") == "CapturedDecl":
                        y = y["inner"][0]
                    body = self.stmt(y)
                    break
                if y.get("kind") in ("CompoundStmt", "ForStmt", "IfStmt") or y.get("kind", "").endswith("Operator") \
                        or y.get("kind", "").endswith("Expr"):
                    body = self.stmt(y)
                    break
            return N("omp", ln, [body] if body is not None else [], op=k[3:-9], extra=self.pragma(ln))
        if k == "CapturedStmt":
            y = inner[0]
            return self.stmt(y["inner"][0] if y.get("kind") == "CapturedDecl" else y)
        if k == "SwitchStmt" or k is None:
            return N("unsupported", ln, name=str(k))
        return N("expr", ln, [self.expr(n)])

    def expr(self, n):
        k = n.get("kind")
        ln = n.get("_line", 0)
        ty = ctype(n.get("type", {}))
        inner = n.get("inner", [])
        if k in ("ParenExpr", "ConstantExpr", "FullExpr"):
            return self.expr(inner[0])
        if k == "ImplicitCastExpr":
            e = self.expr(inner[0])
            if n.get("castKind") == "FloatingToIntegral":
                return N("cast", ln, [e], type=ty)
            if n.get("castKind") in ("FloatingCast", "IntegralCast") and narrows(e, ty):
                return N("cast", ln, [e], type=ty, op=n.get("castKind"))
            return e
        if k == "CStyleCastExpr":
            return N("cast", ln, [self.expr(inner[0])], type=ty, op=n.get("castKind"))
        if k == "DeclRefExpr":
            r = n["referencedDecl"]
            return N("ref", ln, name=r.get("name"), type=ctype(r.get("type", {})) or ty, extra=r.get("kind"))
        if k in ("IntegerLiteral", "FloatingLiteral", "CharacterLiteral"):
            v = n["value"]
            return N("num", ln, value=float(v) if k == "FloatingLiteral" else int(v), type=ty)
        if k == "StringLiteral":
            return N("str", ln, value=json.loads(n["value"]) if n["value"].startswith('"') else n["value"])
        if k == "ArraySubscriptExpr":
            return N("index", ln, [self.expr(inner[0]), self.expr(inner[1])], type=ty)
        if k == "MemberExpr":
            return N("member", ln, [self.expr(inner[0])], name=n["name"], type=ty)
        if k == "UnaryOperator":
            return N("unary", ln, [self.expr(inner[0])], op=n["opcode"], type=ty, extra=n.get("isPostfix"))
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            return N("binary", ln, [self.expr(x) for x in inner], op=n["opcode"], type=ty)
        if k == "ConditionalOperator":
            return N("cond", ln, [self.expr(x) for x in inner], type=ty)
        if k == "CallExpr":
            f = self.expr(inner[0])
            nm = f.name
            if nm is None:
                nm = self.api_name(f)
            return N("call", ln, [self.expr(x) for x in inner[1:]], name=nm, type=ty, extra=f if f.name is None else None)
        if k == "UnaryExprOrTypeTraitExpr":
            return N("sizeof", ln, type=(n.get("argType") or {}).get("qualType"))
        if k == "InitListExpr":
            return N("init", ln, [self.expr(x) for x in inner], type=ty)
        if k == "ImplicitValueInitExpr":
            return N("num", ln, value=0, type=ty)
        return N("unsupported", ln, [self.expr(x) for x in inner if x.get("kind")], name=str(k), type=ty)


# --------------------------------------------------------------- to Python
SCALARS = ("double", "float", "unsigned long", "long", "int", "unsigned int", "npy_intp", "size_t")
MATH = {"sin": "sin", "cos": "cos", "tan": "tan", "atan": "arctan", "atan2": "arctan2", "asin": "arcsin", "acos": "arccos",
        "exp": "exp", "log": "log", "sqrt": "sqrt", "floor": "floor", "ceil": "ceil", "isnan": "isnan", "__isnan": "isnan",
        "__builtin_isnan": "isnan", "fabs": "abs", "isfinite": "isfinite"}


def pointee(t):
    m = re.match(r"^(?:const )?(.*?)\s*\*(?:\s*(?:const|restrict|__restrict))*$", t or "")
    if m and m.group(1).replace("const", "").strip() in SCALARS:
        return m.group(1)
    return None


def dims_of(t):
    return [int(x) for x in re.findall(r"\[(\d+)\]", t or "")]


def is_int(t):
    return (t or "").replace("const ", "") in ("unsigned long", "long", "int", "unsigned int", "npy_intp", "size_t", "long int")


PARSE = ("PyArg_ParseTupleAndKeywords", "_PyArg_ParseTupleAndKeywords_SizeT", "PyArg_ParseTuple", "_PyArg_ParseTuple_SizeT")


class Untranslatable(Exception):
    pass


class ToPython:
    """one C function as a Python function: a pointer p becomes the array p and
    the offset p__o; the parallel region is run by one thread"""

    def __init__(self, cf, fn):
        self.cf, self.fn = cf, fn
        self.region = 0
        self.fbase = {}
        self.hoist = []
        self.labels = {}
        self.structs = {}
        self.sarrays = {}
        self.err = None
        self.depth = 0

    # -- helpers
    def nm(self, s, store=False):
        if keyword.iskeyword(s):
            s += "_"
        return ast.Name(s, ast.Store() if store else ast.Load())

    def call(self, f, *args):
        p = f.split(".")
        e = self.nm(p[0])
        for x in p[1:]:
            e = ast.Attribute(e, x, ast.Load())
        return ast.Call(e, list(args), [])

    def num(self, v):
        return ast.Constant(v)

    def add(self, a, b):
        if isinstance(a, ast.Constant) and a.value == 0:
            return b
        if isinstance(b, ast.Constant) and b.value == 0:
            return a
        return ast.BinOp(a, ast.Add(), b)

    def at(self, s, ln):
        for x in (s if isinstance(s, list) else [s]):
            for y in ast.walk(x):
                if not hasattr(y, "lineno") or getattr(y, "lineno", None) is None:
                    y.lineno, y.col_offset, y.end_lineno, y.end_col_offset = ln, 0, ln, 0
        return s

    # -- function
    def translate(self):
        f = self.fn
        self.parse = None
        params = []
        for n, t in f.extra:
            params.append(n)
            if pointee(t):
                params.append(n + "__o")
        body = f.kids[0]
        self.collect(body)
        out = self.block(body.kids)
        if self.parse is not None:
            params = ["p_" + x for x in self.parse[0]]
            defaults = [self.num(None)] * self.parse[1]
        else:
            defaults = []
        if f.name in self.cf.threaded():
            params = ["num_threads__", "idle_threads__"] + params
        node = ast.FunctionDef(name=f.name,
                               args=ast.arguments([], [ast.arg(p + "_" if keyword.iskeyword(p) else p) for p in params], None, [], [], None, defaults),
                               body=out or [ast.Pass()], decorator_list=[], returns=None, type_params=[])
        self.at(node, f.line)
        return ast.fix_missing_locations(node)

    def collect(self, body):
        for x in body.walk():
            if x.kind == "block":
                for i, y in enumerate(x.kids):
                    if y.kind == "label":
                        self.labels[y.name] = (x, i)
            if x.kind == "decls":
                for d in x.kids:
                    t = (d.type or "").replace("struct ", "")
                    if t in self.cf.records:
                        self.structs[d.name] = t
                    elif t.endswith("*") and t[:-1].strip() in self.cf.records and d.kids:
                        self.sarrays[d.name] = t[:-1].strip()

    def block(self, kids):
        out = []
        for s in kids:
            r = self.stmt(s)
            out += r
            if r and isinstance(r[-1], (ast.Return, ast.Raise)):
                break
        return out

    def stmt(self, s):
        if s is None:
            return []
        self.pre, self.post = [], []
        r = self._stmt(s)
        return self.at(r, s.line)

    def effects(self, fn):
        """run fn collecting the statements its side effects need"""
        sv = self.pre, self.post
        self.pre, self.post = [], []
        r = fn()
        pre, post = self.pre, self.post
        self.pre, self.post = sv
        return pre, r, post

    def _stmt(self, s):
        k = s.kind
        if k == "block":
            return self.block(s.kids)
        if k == "label":
            out = []
            for x in s.kids:
                out += self.stmt(x)
            return out
        if k == "null":
            return []
        if k == "decls":
            out = []
            for d in s.kids:
                out += self.declare(d)
            return out
        if k == "expr":
            pre, r, post = self.effects(lambda: self.effect(s.kids[0]))
            return pre + r + post
        if k == "if":
            pa = [x for x in s.kids[0].walk() if x.kind == "call" and x.name in PARSE]
            if pa:
                return self.parse_args(pa[0])
            pre, c, post = self.effects(lambda: self.cond(s.kids[0]))
            if post:
                raise Untranslatable("side effect in condition")
            if isinstance(c, ast.Constant):
                return pre + (self.stmt(s.kids[1]) if c.value else self.stmt(s.kids[2]))
            a, b = self.stmt(s.kids[1]), self.stmt(s.kids[2])
            if not a and not b:
                return pre
            return pre + [ast.If(c, a or [ast.Pass()], b)]
        if k == "for":
            return self.loop(s)
        if k == "while":
            pre, c, post = self.effects(lambda: self.cond(s.kids[0]))
            if pre or post:
                raise Untranslatable("side effect in loop condition")
            return [ast.While(c, self.stmt(s.kids[1]) or [ast.Pass()], [])]
        if k == "break":
            return [ast.Break()]
        if k == "continue":
            return [ast.Continue()]
        if k == "goto":
            self.depth += 1
            if self.depth > 40 or s.name not in self.labels:
                raise Untranslatable("goto")
            blk, i = self.labels[s.name]
            err = self.err
            out = self.block(blk.kids[i:])
            self.err = err
            self.depth -= 1
            return out or [ast.Return(None)]
        if k == "return":
            if not s.kids:
                return [ast.Return(None)]
            e = s.kids[0]
            if self.isnull(e):
                return [ast.Raise(self.call(self.err or "SystemError"), None)]
            if pointee(e.type) and e.kind != "call":
                a, o = self.ptr(e)
                return [ast.Return(a)]
            if self.fn.type.startswith("PyObject") and not any(x.kind == "call" for x in e.walk()):
                raise Untranslatable("returned object")
            pre, r, post = self.effects(lambda: self.expr(e))
            return pre + [ast.Return(r)]
        if k == "omp":
            if s.op == "Parallel":
                # the threads of the region one after the other (that they do
                # not interfere is decided by the race analysis)
                self.region += 1
                self.hoist = []
                b = self.stmt(s.kids[0])
                self.region -= 1
                return self.hoist + [ast.For(self.nm("thread__", True), self.call("range", self.nm("num_threads__")), b or [ast.Pass()], [], None)]
            if s.op == "For" and self.region:
                return self.loop(s.kids[0], True) if s.kids[0].kind == "for" else self.share(s.kids[0])
            if s.op in ("Single", "Master") and self.region:
                b = self.stmt(s.kids[0])
                return [ast.If(ast.Compare(self.nm("thread__"), [ast.Eq()], [self.num(0)]), b or [ast.Pass()], [])]
            return self.stmt(s.kids[0]) if s.kids else []
        raise Untranslatable(k + " " + str(s.name))

    def parse_args(self, c):
        kw = "Keywords" in c.name
        fmt = [x.value for x in c.kids[:4] if x.kind == "str"][0].split(":")[0].split(";")[0]
        at = 4 if kw else 2
        targets = c.kids[at:]
        if kw:
            names = [x for x in c.kids[3].walk() if x.kind == "ref"][0].name
            names = [y.value for x in self.statics[names].kids for y in x.walk() if y.kind == "str"]
        else:
            names = ["arg%d" % i for i in range(len(targets))]
        out, optvars, k, nopt, opt, i, depth, sub = [], set(), 0, 0, False, 0, 0, 0
        params = []
        while i < len(fmt):
            ch = fmt[i]
            i += 1
            if ch == "|":
                opt = True
                continue
            if ch == "$":
                continue
            if ch == "(":
                depth, sub = depth + 1, 0
                continue
            if ch == ")":
                depth -= 1
                params.append(names[k])
                k += 1
                nopt += opt
                continue
            if ch not in "OidlkfnIp":
                raise Untranslatable("format " + fmt)
            if depth > 1 or k >= len(names):
                raise Untranslatable("format " + fmt)
            t = targets.pop(0)
            if ch == "O" and i < len(fmt) and fmt[i] in "!&":
                i += 1
                t = targets.pop(0)
            if not (t.kind == "unary" and t.op == "&"):
                raise Untranslatable("parse target")
            v = self.nm("p_" + names[k])
            if depth:
                v = ast.Subscript(v, self.num(sub), ast.Load())
                sub += 1
            else:
                params.append(names[k])
            st = ast.Assign([self.lval(t.kids[0])], v)
            if opt:
                if ch == "O":
                    optvars.add(t.kids[0].name)
                else:
                    st = ast.If(ast.Compare(self.nm("p_" + names[k]), [ast.IsNot()], [self.num(None)]), [st], [])
            out.append(st)
            if not depth:
                k += 1
                nopt += opt
        self.parse = (params, nopt, optvars)
        return out

    def isnull(self, e):
        while e.kind == "cast":
            e = e.kids[0]
        return e.kind == "num" and e.value == 0 and e.type == "int" and (self.fn.type.startswith("PyObject")) or e.kind == "ref" and e.name == "NULL"

    def declare(self, d):
        t = (d.type or "").replace("struct ", "")
        if d.extra == "static" and d.kids and d.kids[0].kind == "init":
            self.statics = getattr(self, "statics", {})
            self.statics[d.name] = d.kids[0]
            return []
        if t in self.cf.records and not d.kids:
            return [ast.Assign([self.nm(d.name, True)], self.call("types.SimpleNamespace"))]
        if d.name in self.sarrays:
            n = d.kids[0]
            while n.kind == "cast":
                n = n.kids[0]
            if n.kind != "call" or n.name not in ("malloc", "calloc"):
                raise Untranslatable("array of structures")
            n = self.count(n.kids[0]) if n.name == "malloc" else self.expr(n.kids[0])
            return [ast.Assign([self.nm(d.name + "__" + f + ("__o" if pointee(ft) else ""), True)], self.call("np.empty", n))
                    for f, ft in self.cf.records[self.sarrays[d.name]]]
        ds = dims_of(t)
        if ds and not d.kids:
            shp = self.num(ds[0]) if len(ds) == 1 else ast.Tuple([self.num(x) for x in ds], ast.Load())
            return [ast.Assign([self.nm(d.name, True)], self.call("np.empty", shp))]
        if not d.kids:
            return []
        pre, r, post = self.effects(lambda: self.assign(N("ref", d.line, name=d.name, type=d.type), d.kids[0]))
        return pre + r + post

    def assign(self, lhs, rhs):
        while rhs.kind == "cast" and not (is_int(rhs.type) and not is_int(rhs.kids[0].type)) and not narrows(rhs.kids[0], rhs.type):
            rhs = rhs.kids[0]
        if rhs.kind == "binary" and rhs.op == "=":
            inner = self.assign(*rhs.kids)
            return inner + self.assign(lhs, rhs.kids[0])
        t = lhs.type
        if rhs.kind == "call" and rhs.name == "PyEval_SaveThread":
            return []
        if lhs.kind == "ref" and self.isnull0(rhs) and (t or "").endswith("*") and not pointee(t):
            return [ast.Assign([self.nm(lhs.name, True)], self.num(None))]
        if lhs.kind == "ref" and rhs.kind == "call" and rhs.name in ("PyArray_FromAny", "PyArray_SimpleNew", "PyArray_Zeros", "PyArray_Empty", "PyArray_New"):
            return self.numpy_new(lhs.name, rhs)
        if pointee(t):
            if self.isnull0(rhs):
                return []if lhs.kind == "ref" else []
            if lhs.kind == "ref" and self.region and rhs.kind == "call" and rhs.name in ("malloc", "calloc"):
                # one buffer per thread: the slices of a pool
                n = self.count(rhs.kids[0]) if rhs.name == "malloc" else self.expr(rhs.kids[0])
                pool = self.call("np.empty" if rhs.name == "malloc" else "np.zeros", ast.BinOp(self.nm("num_threads__"), ast.Mult(), n))
                self.hoist.append(ast.Assign([self.nm(lhs.name, True)], pool))
                return [ast.Assign([self.nm(lhs.name + "__o", True)], ast.BinOp(self.nm("thread__"), ast.Mult(), n))]
            if lhs.kind == "member" and self.sbase(lhs) is not None:
                v, f, k = self.sbase(lhs)
                a, o = self.ptr(rhs)
                if not isinstance(a, ast.Name) or self.fbase.setdefault((v, f), a.id) != a.id:
                    raise Untranslatable("pointer field with several targets")
                return [ast.Assign([ast.Subscript(self.nm(v + "__" + f + "__o"), k, ast.Store())], o)]
            a, o = self.ptr(rhs)
            if lhs.kind == "ref":
                return [ast.Assign([self.nm(lhs.name, True)], a), ast.Assign([self.nm(lhs.name + "__o", True)], o)]
            if not (isinstance(o, ast.Constant) and o.value == 0) and not (isinstance(o, ast.Name)):
                raise Untranslatable("offset pointer stored")
            return [ast.Assign([self.lval(lhs)], a)]
        return [ast.Assign([self.lval(lhs)], self.expr(rhs))]

    def isnull0(self, e):
        while e.kind == "cast":
            e = e.kids[0]
        return e.kind == "num" and e.value == 0

    def numpy_new(self, name, c):
        if c.name == "PyArray_FromAny":
            src = c.kids[0]
            code = self.typecode(c.kids[1])
            lo, hi = (self.expr(x) for x in c.kids[2:4])
            a = ast.Call(ast.Attribute(self.nm("np"), "asarray", ast.Load()), [self.expr(src), self.dt(code)], [])
            out = [ast.Assign([self.nm(name + "__src", True)], a)]
            if isinstance(lo, ast.Constant) and lo.value and lo.value == getattr(hi, "value", None):
                out.append(ast.If(ast.Compare(ast.Attribute(self.nm(name + "__src"), "ndim", ast.Load()), [ast.NotEq()], [lo]),
                                  [ast.Raise(self.call("ValueError"), None)], []))
            out.append(ast.Assign([self.nm(name, True)], self.call("np.ravel", self.nm(name + "__src"))))
            out.append(ast.Assign([self.nm(name + "__shape", True)], ast.Attribute(self.nm(name + "__src"), "shape", ast.Load())))
            return out
        if c.name == "PyArray_New":
            nd, d = self.expr(c.kids[1]).value, c.kids[2]
            code = self.typecode(c.kids[3])
        else:
            nd, d = self.expr(c.kids[0]).value, c.kids[1]
            code = self.typecode(c.kids[2])
        n = None
        for k in range(nd):
            x = ast.Subscript(self.expr(d), self.num(k), ast.Load())
            n = x if n is None else ast.BinOp(n, ast.Mult(), x)
        v = self.call("np.zeros" if c.name == "PyArray_Zeros" else "np.empty", n, self.dt(code))
        shp = ast.Tuple([ast.Subscript(self.expr(d), self.num(k), ast.Load()) for k in range(nd)], ast.Load())
        return [ast.Assign([self.nm(name, True)], v), ast.Assign([self.nm(name + "__src", True)], self.nm(name)),
                ast.Assign([self.nm(name + "__shape", True)], shp)]

    def typecode(self, e):
        for x in e.walk():
            if x.kind == "ref" and (x.name or "").startswith("NPY_"):
                return x.name
        raise Untranslatable("array type")

    def dt(self, code):
        if code == "NPY_DOUBLE":
            return self.nm("float")
        return ast.Attribute(self.nm("np"), {"NPY_ULONG": "uint64", "NPY_LONG": "int64", "NPY_UINT64": "uint64", "NPY_INT64": "int64",
                                             "NPY_FLOAT64": "float64"}.get(code, code), ast.Load())

    # -- loops
    def loop(self, s, shared=False):
        init, cond, inc, body = s.kids
        out = []
        var = None
        if init is not None:
            if init.kind == "expr" and init.kids[0].kind == "binary" and init.kids[0].op == "=" and init.kids[0].kids[0].kind == "ref":
                var, start = init.kids[0].kids[0].name, init.kids[0].kids[1]
            elif init.kind == "decls" and len(init.kids) == 1:
                var, start = init.kids[0].name, init.kids[0].kids[0]
        step = None
        e = inc.kids[0] if inc is not None and inc.kind == "expr" else None
        if e is not None and e.kind == "unary" and e.op == "++" and e.kids[0].kind == "ref" and e.kids[0].name == var:
            step = N("num", s.line, value=1)
        elif e is not None and e.kind == "binary" and e.op == "+=" and e.kids[0].kind == "ref" and e.kids[0].name == var:
            step = e.kids[1]
        writes = any(x.kind in ("unary", "binary") and (x.op in ("++", "--", "=") or (x.op or "").endswith("=") and x.op not in (
            "==", "!=", "<=", ">=")) and x.kids[0].kind == "ref" and x.kids[0].name == var for x in body.walk())
        if var and step is not None and cond is not None and cond.kind == "binary" and cond.op in ("<", "<=") and not writes \
                and cond.kids[0].kind == "ref" and cond.kids[0].name == var:
            hi = self.expr(cond.kids[1])
            if cond.op == "<=":
                hi = self.add(hi, self.num(1))
            args = [self.expr(start), hi]
            if step.value != 1:
                args.append(self.expr(step))
            elif isinstance(args[0], ast.Constant) and args[0].value == 0:
                args = [hi]
            b = self.stmt(body)
            if not b:
                return []
            if shared:
                if len(args) > 2:
                    raise Untranslatable("shared loop with a step")
                lo = args[0] if len(args) == 2 else self.num(0)
                args = [self.add(lo, self.nm("thread__")), hi, self.nm("num_threads__")]
            return [ast.For(self.nm(var, True), self.call("range", *args), b, [], None)]
        if shared:
            raise Untranslatable("shared loop")
        if any(x.kind == "continue" for x in body.walk()):
            raise Untranslatable("continue in a general loop")
        out += self.stmt(init) if init is not None else []
        c = self.cond(cond) if cond is not None else self.num(True)
        b = self.stmt(body) + (self.stmt(inc) if inc is not None else [])
        return out + [ast.While(c, b or [ast.Pass()], [])]

    # -- expressions
    def cond(self, e):
        while e.kind == "cast":
            e = e.kids[0]
        if e.kind == "unary" and e.op == "!":
            c = self.cond(e.kids[0])
            if isinstance(c, ast.Constant):
                return self.num(not c.value)
            return ast.UnaryOp(ast.Not(), c)
        if e.kind == "binary" and e.op in ("&&", "||"):
            a, b = self.cond(e.kids[0]), self.cond(e.kids[1])
            for x, y in ((a, b), (b, a)):
                if isinstance(x, ast.Constant):
                    return y if bool(x.value) == (e.op == "&&") else x
            return ast.BoolOp(ast.And() if e.op == "&&" else ast.Or(), [a, b])
        if e.kind == "binary" and e.op in ("==", "!=") and any(self.isnull0(x) and x.kind == "cast" for x in e.kids):
            o = [x for x in e.kids if not (self.isnull0(x) and x.kind == "cast")][0]
            c = self.cond(o)
            if isinstance(c, ast.Constant):
                return self.num(c.value == (e.op == "!="))
            return ast.UnaryOp(ast.Not(), c) if e.op == "==" else c
        t = e.type or ""
        if t.endswith("*"):
            # pointers: allocation failure is a separate analysis; optional
            # arguments are None when absent
            if e.kind == "ref" and self.parse is not None and e.name in self.parse[2]:
                return ast.Compare(self.nm(e.name), [ast.IsNot()], [self.num(None)])
            return self.num(True)
        return self.expr(e)

    def lval(self, e):
        if e.kind == "ref":
            return self.nm(e.name, True)
        r = self.expr(e)
        r.ctx = ast.Store()
        return r

    def sbase(self, e):
        """(array, field, index) of a field of an array of structures"""
        b = e.kids[0]
        if b.kind == "index" and b.kids[0].kind == "ref" and b.kids[0].name in self.sarrays:
            return b.kids[0].name, e.name, self.expr(b.kids[1])
        if b.kind == "ref" and b.name in self.sarrays:
            return b.name, e.name, self.num(0)
        return None

    def ptr(self, e):
        while e.kind == "cast":
            e = e.kids[0]
        if e.kind == "ref":
            if pointee(e.type):
                return self.nm(e.name), self.nm(e.name + "__o")
            return self.nm(e.name), self.num(0)
        if e.kind == "binary" and e.op in ("+", "-"):
            p, k = e.kids
            if e.op == "+" and not pointee(p.type) and not dims_of(p.type) and (pointee(k.type) or dims_of(k.type)):
                p, k = k, p
            a, o = self.ptr(p)
            x = self.expr(k)
            return a, (self.add(o, x) if e.op == "+" else ast.BinOp(o, ast.Sub(), x))
        if e.kind == "unary" and e.op == "&":
            i = e.kids[0]
            if i.kind == "index":
                if pointee(i.kids[0].type) or dims_of(i.kids[0].type):
                    a, o = self.ptr(i.kids[0])
                    return a, self.add(o, self.expr(i.kids[1]))
            if i.kind == "ref":
                return self.nm(i.name), self.num(0)
        if e.kind == "unary" and e.op in ("++", "--"):
            a, o = self.ptr(e.kids[0])
            if not isinstance(a, ast.Name):
                raise Untranslatable("pointer step")
            st = ast.AugAssign(self.nm(a.id + "__o", True), ast.Add() if e.op == "++" else ast.Sub(), self.num(1))
            (self.post if e.extra else self.pre).append(st)
            return a, o
        if e.kind == "member":
            sb = self.sbase(e)
            if sb is not None:
                if sb[:2] not in self.fbase:
                    raise Untranslatable("pointer field before it is set")
                return self.nm(self.fbase[sb[:2]]), ast.Subscript(self.nm(sb[0] + "__" + sb[1] + "__o"), sb[2], ast.Load())
            return self.expr(e), self.num(0)
        if e.kind == "call" and e.name in ("malloc", "PyMem_Malloc", "PyMem_RawMalloc"):
            return self.call("np.empty", self.count(e.kids[0])), self.num(0)
        if e.kind == "call" and e.name in ("calloc",):
            return self.call("np.zeros", self.expr(e.kids[0])), self.num(0)
        if e.kind == "call" and e.name == "PyArray_DATA":
            return self.expr(e.kids[0]), self.num(0)
        raise Untranslatable("pointer expression " + e.kind + " " + str(e.name))

    def count(self, e):
        """number of elements: product without the sizeof factor"""
        fs = []

        def go(x):
            while x.kind == "cast":
                x = x.kids[0]
            if x.kind == "binary" and x.op == "*":
                go(x.kids[0])
                go(x.kids[1])
            elif x.kind != "sizeof":
                fs.append(self.expr(x))

        go(e)
        r = None
        for f in fs:
            r = f if r is None else ast.BinOp(r, ast.Mult(), f)
        return r or self.num(1)

    def expr(self, e):
        k = e.kind
        if k == "num":
            return self.num(e.value)
        if k == "str":
            return self.num(e.value)
        if k == "ref":
            return self.nm(e.name)
        if k == "cast":
            x = self.expr(e.kids[0])
            if is_int(e.type) and (e.op == "FloatingToIntegral" or e.op is None):
                return self.call("int", x)
            w = narrows(e.kids[0], e.type)
            if w:
                return self.call("np.round", x, self.num(7)) if w == "float32" else self.call("np." + w, x)   # digits are lost
            return x
        if k == "member":
            b = e.kids[0]
            if b.kind == "index" and b.kids[0].kind == "ref" and b.kids[0].name in self.sarrays:
                return ast.Subscript(self.nm(b.kids[0].name + "__" + e.name), self.expr(b.kids[1]), ast.Load())
            if b.kind == "ref" and b.name in self.sarrays:
                return ast.Subscript(self.nm(b.name + "__" + e.name), self.num(0), ast.Load())
            if b.kind == "unary" and b.op in ("*", "&"):
                b = b.kids[0]
            return ast.Attribute(self.expr(b), e.name, ast.Load())
        if k == "index":
            b, i = e.kids
            while b.kind == "cast":
                b = b.kids[0]
            if pointee(b.type):
                if b.kind == "ref":
                    return ast.Subscript(self.nm(b.name), self.add(self.nm(b.name + "__o"), self.expr(i)), ast.Load())
                a, o = self.ptr(b)
                return ast.Subscript(a, self.add(o, self.expr(i)), ast.Load())
            if b.kind == "index" and not pointee(b.kids[0].type) and b.kids[0].kind == "ref" and re.search(
                    r"(\]|\(\*\))\[\d+\]$", b.kids[0].type or ""):
                return ast.Subscript(self.expr(b.kids[0]), ast.Tuple([self.expr(b.kids[1]), self.expr(i)], ast.Load()), ast.Load())
            return ast.Subscript(self.expr(b), self.expr(i), ast.Load())
        if k == "unary":
            if e.op == "*":
                a, o = self.ptr(e.kids[0])
                return ast.Subscript(a, o, ast.Load())
            if e.op == "-":
                return ast.UnaryOp(ast.USub(), self.expr(e.kids[0]))
            if e.op == "+":
                return self.expr(e.kids[0])
            if e.op == "!":
                return self.cond(e)
            if e.op == "&":
                return self.expr(e.kids[0])
            if e.op in ("++", "--") and e.kids[0].kind == "ref":
                st = ast.AugAssign(self.nm(e.kids[0].name, True), ast.Add() if e.op == "++" else ast.Sub(), self.num(1))
                (self.post if e.extra else self.pre).append(st)
                return self.nm(e.kids[0].name)
            raise Untranslatable("unary " + e.op)
        if k == "binary":
            if e.op in ("&&", "||"):
                return self.cond(e)
            a, b = self.expr(e.kids[0]), self.expr(e.kids[1])
            cmpo = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq}
            if e.op in cmpo:
                return ast.Compare(a, [cmpo[e.op]()], [b])
            ar = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "%": ast.Mod}
            if e.op in ar:
                return ast.BinOp(a, ar[e.op](), b)
            if e.op == "/":
                return ast.BinOp(a, ast.FloorDiv() if is_int(e.type) else ast.Div(), b)
            raise Untranslatable("operator " + e.op)
        if k == "cond":
            return ast.IfExp(self.cond(e.kids[0]), self.expr(e.kids[1]), self.expr(e.kids[2]))
        if k == "call":
            return self.callx(e)
        raise Untranslatable(k + " " + str(e.name))

    def callx(self, e):
        n = e.name
        if n == "pow":
            return ast.BinOp(self.expr(e.kids[0]), ast.Pow(), self.expr(e.kids[1]))
        if n in MATH:
            return self.call("np." + MATH[n], *[self.expr(x) for x in e.kids])
        if n == "omp_get_thread_num":
            return self.nm("thread__") if self.region else self.num(0)
        if n == "omp_get_num_threads":
            return self.nm("num_threads__") if self.region else self.num(1)
        if n == "omp_get_max_threads":
            return ast.BinOp(self.nm("num_threads__"), ast.Add(), self.nm("idle_threads__"))
        if n == "PyArray_DIM":
            return ast.Subscript(ast.Attribute(self.src(e.kids[0]), "shape", ast.Load()), self.expr(e.kids[1]), ast.Load())
        if n in ("PyArray_SIZE", "PyArray_MultiplyList"):
            # PyArray_SIZE(m) is PyArray_MultiplyList(PyArray_DIMS(m), PyArray_NDIM(m))
            x = [y for y in e.walk() if y.kind == "ref" and "PyArrayObject" in (y.type or "")]
            return self.call("len", self.nm(x[0].name))
        if n == "PyArray_NDIM":
            return ast.Attribute(self.src(e.kids[0]), "ndim", ast.Load())
        if n in ("Py_BuildValue", "_Py_BuildValue_SizeT"):
            vs = []
            for x in e.kids[1:]:
                while x.kind == "cast":
                    x = x.kids[0]
                if x.kind == "ref" and "PyArrayObject" in (x.type or ""):
                    vs.append(self.call("np.reshape", self.nm(x.name), self.nm(x.name + "__shape")))
                else:
                    vs.append(self.expr(x))
            return vs[0] if len(vs) == 1 else ast.Tuple(vs, ast.Load())
        if n in self.cf.funcs:
            for g in self.cf.reach(n):
                if any("PyArrayObject" in t or "PyObject" in t for _, t in self.cf.funcs[g].extra) or any(
                        x.kind == "call" and (x.name or "").startswith("PyErr_") for x in self.cf.funcs[g].walk()):
                    raise Untranslatable("helper on Python objects: " + n)
            args = [self.nm("num_threads__"), self.nm("idle_threads__")] if n in self.cf.threaded() else []
            for x, (pn, pt) in zip(e.kids, self.cf.funcs[n].extra):
                if pointee(pt):
                    a, o = self.ptr(x)
                    args += [a, o]
                else:
                    args.append(self.expr(x))
            return self.call(n, *args)
        raise Untranslatable("call " + str(n))

    def src(self, e):
        while e.kind == "cast":
            e = e.kids[0]
        return self.nm(e.name + "__src")

    # -- statements that are expressions
    def effect(self, e):
        while e.kind == "cast":
            e = e.kids[0]
        if e.kind == "binary" and e.op == "=":
            return self.assign(*e.kids)
        if e.kind == "binary" and e.op == ",":
            return self.effect(e.kids[0]) + self.effect(e.kids[1])
        if e.kind == "binary" and e.op.endswith("=") and e.op not in ("==", "!=", "<=", ">="):
            op = {"+=": ast.Add, "-=": ast.Sub, "*=": ast.Mult, "/=": ast.Div}[e.op]
            if pointee(e.kids[0].type):
                return [ast.AugAssign(self.nm(e.kids[0].name + "__o", True), op(), self.expr(e.kids[1]))]
            return [ast.AugAssign(self.lval(e.kids[0]), op(), self.expr(e.kids[1]))]
        if e.kind == "unary" and e.op in ("++", "--"):
            op = ast.Add if e.op == "++" else ast.Sub
            if pointee(e.kids[0].type):
                return [ast.AugAssign(self.nm(e.kids[0].name + "__o", True), op(), self.num(1))]
            return [ast.AugAssign(self.lval(e.kids[0]), op(), self.num(1))]
        if e.kind == "call":
            n = e.name
            if n == "free" or n in ("PyMem_Free", "PyMem_RawFree"):
                return []
            if n in ("Py_XDECREF", "Py_DECREF", "Py_XINCREF", "Py_INCREF", "PyEval_RestoreThread", "PyEval_SaveThread"):
                return []
            if n == "PyErr_SetString":
                x = [y for y in e.kids[0].walk() if y.kind == "ref"]
                self.err = x[0].name.replace("PyExc_", "")
                return []
            if n == "PyErr_NoMemory":
                self.err = "MemoryError"
                return []
            if n == "memset" and self.isnull0(e.kids[1]):
                a, o = self.ptr(e.kids[0])
                v = "k__memset"
                return [ast.For(self.nm(v, True), self.call("range", self.count(e.kids[2])),
                                [ast.Assign([ast.Subscript(a, self.add(o, self.nm(v)), ast.Store())], self.num(0))], [], None)]
            return [ast.Expr(self.callx(e))]
        if e.kind == "cond":
            return []
        return [ast.Expr(self.expr(e))]


def module(root, rel):
    """the C file as a Python module: the functions that translate, under their
    C names, and the exported methods under their Python names"""
    cf = CFile(root, rel)
    body = [ast.Import([ast.alias("numpy", "np")]), ast.Import([ast.alias("types")])]
    failed = {}
    for f in cf.funcs.values():
        try:
            body.append(ToPython(cf, f).translate())
        except Untranslatable as e:
            failed[f.name] = str(e)
    done = {x.name: x for x in body if isinstance(x, ast.FunctionDef)}
    for py, c in methods(cf).items():
        if py not in done and c in done:
            n = copy.deepcopy(done[c])
            n.name = py
            body.append(n)
    m = ast.Module(body, [])
    ast.fix_missing_locations(m)
    return cf, m, failed


WIDTH = {"long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64, "npy_intp": 64, "size_t": 64, "int": 32, "unsigned int": 32,
         "short": 16, "unsigned short": 16, "char": 8, "unsigned char": 8, "signed char": 8}


def narrows(e, ty):
    """the numpy name of the type when converting e to ty loses digits"""
    ty = (ty or "").replace("const ", "")
    src = (e.type or "").replace("const ", "")
    if e.kind == "num":
        return None
    if ty == "float" and src == "double":
        return "float32"
    if ty in WIDTH and src in WIDTH and WIDTH[ty] < WIDTH[src]:
        return ("u" if "unsigned" in ty else "") + "int%d" % WIDTH[ty]
    return None


def methods(cf):
    """Python name -> C function, from the method tables"""
    out = {}
    for g in cf.globals.values():
        if "PyMethodDef" in (g.type or "") and g.kids:
            for e in g.kids[0].kids:
                ss = [x.value for x in e.walk() if x.kind == "str"]
                fs = [x.name for x in e.walk() if x.kind == "ref" and x.name in cf.funcs]
                if ss and fs:
                    out[ss[0]] = fs[0]
    return out
