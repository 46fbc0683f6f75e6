"""Cython front end: rewrites a .pyx source to a Python syntax tree (types
erased, C integer conversions and raw buffer pointers made explicit).

Only the constructs below are rewritten; whatever else is Cython-specific
makes the enclosing function untranslatable (reported as undecided)."""
from __future__ import annotations

import ast
import io
import os
import re
import tokenize

INTS = {"int", "long", "short", "char", "size_t", "ssize_t", "Py_ssize_t", "bint"}
TYPE = r"(?:unsigned\s+|signed\s+|const\s+)*[A-Za-z_][\w\.]*(?:\s+(?:long|int))?(?:\s*\[[^\]]*\])?"
CFUNC = re.compile(r"^(\s*)c(?:p)?def\s+(?:inline\s+)?(?:(?P<ty>%s)\s*(?P<st>\**)\s+)?(?P<name>\w+)\s*\((?P<args>.*)\)\s*"
                   r"(?:nogil|noexcept|except\s*[^:]*|\s)*:\s*$" % TYPE, re.S)
CVAR = re.compile(r"^(\s*)cdef\s+(?P<ty>%s)\s*(?P<rest>\**\s*\w.*)$" % TYPE, re.S)
DEFRE = re.compile(r"^(\s*)def\s+(\w+)\s*\((.*)\)\s*:\s*$", re.S)
CAST = re.compile(r"<\s*(%s)\s*(\**)\s*>(?=\s*[\w(\-&])" % TYPE)


class Untranslatable(Exception):
    pass


def is_int(ty):
    t = ty.strip().split(".")[-1].strip()
    t = re.sub(r"^(unsigned|signed|const)\s+", "", t)
    return t in INTS or re.fullmatch(r"u?int\d*_t", t) is not None or t in ("long long", "long int", "unsigned", "npy_intp", "intp_t")


def split_top(s):
    out, d, cur, q = [], 0, "", None
    for c in s:
        if q:
            if c == q:
                q = None
        elif c in "'\"":
            q = c
        elif c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        if c == "," and d == 0 and not q:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


def logical(src):
    """logical lines with their first physical line (strings and comments
    kept, parentheses respected)"""
    lines = src.split("\n")
    out, k = [], 0
    while k < len(lines):
        start, text = k, lines[k]
        while True:
            d, q, esc = 0, None, False
            i = 0
            while i < len(text):
                c = text[i]
                if q:
                    if text.startswith(q, i) and not esc:
                        i += len(q) - 1
                        q = None
                    esc = c == "\\" and not esc
                elif c == "#":
                    j = text.find("\n", i)
                    i = len(text) if j < 0 else j
                    continue
                elif c in "'\"":
                    q = c * 3 if text.startswith(c * 3, i) else c
                    i += len(q) - 1
                    esc = False
                elif c in "([{":
                    d += 1
                elif c in ")]}":
                    d -= 1
                i += 1
            if (d > 0 or (q and len(q) == 3) or text.rstrip().endswith("\\")) and k + 1 < len(lines):
                k += 1
                text += "\n" + lines[k]
            else:
                break
        out.append((start, text))
        k += 1
    return out


def uncomment(s):
    """drop a comment that ends a line of code without strings holding #"""
    out = []
    for l in s.split("\n"):
        q = None
        for i, c in enumerate(l):
            if q:
                q = None if c == q else q
            elif c in "'\"":
                q = c
            elif c == "#":
                l = l[:i]
                break
        out.append(l.rstrip())
    return "\n".join(out)


def arg(a):
    """one parameter of a function: (python text, c type)"""
    t = a.strip()
    if not t or t in ("*", "/") or t.startswith("**"):
        return t, None
    if t.startswith("*"):
        return t, None
    m = re.match(r"^(?:(?P<ty>%s)\s*(?P<st>\**)\s+\**)?(?P<nm>\w+)\s*(?P<no>not\s+None|or\s+None)?\s*(?P<df>=.*)?$" % TYPE, t, re.S)
    if not m:
        m2 = re.match(r"^(?P<ty>%s)\s*(?P<st>\*+)\s*(?P<nm>\w+)()(?P<df>=.*)?$" % TYPE, t, re.S)
        if not m2:
            if re.match(r"^\w+\s*(:.*)?(=.*)?$", t, re.S):
                return t, None
            raise Untranslatable("parameter " + t)
        m = m2
    return m.group("nm") + (m.group("df") or ""), (m.group("ty") or "") + (m.group("st") or "") or None


def conv_args(s):
    parts, types = [], {}
    for a in split_top(s.replace("\n", " ")):
        p, ty = arg(a)
        parts.append(p)
        if ty:
            types[re.match(r"\**(\w+)", p).group(1)] = ty
    return ", ".join(parts), types


def pad(new, old):
    """same number of physical lines"""
    return new + "\n" * (old.count("\n") - new.count("\n"))


def casts(s):
    """<T> e  ->  __cint__(e) for integer types, e otherwise"""
    while True:
        hit = None
        for m in CAST.finditer(s):
            before = s[:m.start()].rstrip()
            if before and (before[-1].isalnum() or before[-1] in "_)]}\"'") and not re.search(r"\b(return|in|and|or|not|if|else|yield)$", before):
                continue        # a comparison
            hit = m
        if hit is None:
            return s
        i = hit.end()
        while s[i] == " ":
            i += 1
        j = i
        if s[j] in "-&":
            j += 1
        while j < len(s) and (s[j].isalnum() or s[j] in "_."):
            j += 1
        while j < len(s) and s[j] in "([.":
            if s[j] == ".":
                j += 1
                while j < len(s) and (s[j].isalnum() or s[j] == "_"):
                    j += 1
                continue
            d = 0
            while True:
                d += (s[j] in "([") - (s[j] in ")]")
                j += 1
                if d == 0:
                    break
        e = s[i:j]
        if e.startswith("&"):
            raise Untranslatable("address taken")
        if hit.group(2):
            e = "__ptr__(%s)" % e
        elif is_int(hit.group(1)):
            e = "__cint__(%s)" % e
        s = s[:hit.start()] + e + s[j:]


def rewrite(src):
    """(python source, {function line: {name: c type}}, {line: return type})"""
    out = []
    ptypes, rtypes, vtypes, consts = {}, {}, [], set()
    skip = None
    for start, text in logical(src):
        ind = len(text) - len(text.lstrip())
        code = text.strip()
        if skip is not None and code and not code.startswith("#"):
            if ind > skip:
                out.append(pad("", text))
                continue
            skip = None
        if not code or code.startswith("#") or code.startswith(("'''", '"""')):
            out.append(text)
            continue
        body = uncomment(text) if not re.search(r"['\"]", text) else text
        sp = " " * ind
        if re.match(r"\s*(from\s+\S+\s+)?cimport\b", body) or re.match(r"\s*include\s", body):
            out.append(pad("", text))
        elif re.match(r"\s*ctypedef\b", body) or re.match(r"\s*cdef\s+(extern|struct|enum|packed)\b", body):
            if body.rstrip().endswith(":"):
                skip = ind
            out.append(pad("", text))
        elif re.match(r"\s*DEF\s+\w+\s*=", body):
            out.append(re.sub(r"DEF\s+", "", text, count=1))
        elif re.match(r"\s*with\s+(nogil|gil)\s*:", body):
            out.append(pad(sp + "if True:", text))
        elif CFUNC.match(body):
            m = CFUNC.match(body)
            a, ty = conv_args(m.group("args"))
            ptypes[start + 1] = ty
            rtypes[start + 1] = (m.group("ty") or "") + (m.group("st") or "")
            out.append(pad("%sdef %s(%s):" % (sp, m.group("name"), a), text))
        elif DEFRE.match(body):
            m = DEFRE.match(body)
            a, ty = conv_args(m.group(3))
            ptypes[start + 1] = ty
            out.append(pad("%sdef %s(%s):" % (sp, m.group(2), a), text))
        elif re.match(r"\s*cdef\s+class\b", body):
            out.append(pad(sp + body.strip()[5:], text))
        elif CVAR.match(body):
            m = CVAR.match(body)
            ty = m.group("ty")
            stm = []
            for d in split_top(m.group("rest").replace("\n", " ")):
                dm = re.match(r"^\s*(\**)\s*(\w+)\s*((?:\[[^\]]*\])*)\s*(?:=\s*(.*))?$", d, re.S)
                if not dm:
                    raise Untranslatable(body.strip()[:60])
                st, nm, dims, val = dm.groups()
                vtypes.append((start + 1, nm, ty + st + ("[]" if dims else "")))
                if dims:
                    dl = re.findall(r"\[([^\]]*)\]", dims)
                    if len(dl) != 1 or val:
                        raise Untranslatable(body.strip()[:60])
                    stm.append("%s = [None] * (%s)" % (nm, dl[0]))
                elif val is not None:
                    stm.append("%s = %s" % (nm, casts(val.strip())))
            out.append(pad(sp + ("; ".join(stm) or "pass"), text))
        else:
            out.append(pad(casts(text), text) if "<" in text and ">" in text else text)
    return "\n".join(out), ptypes, rtypes, vtypes


class Post(ast.NodeTransformer):
    """integer conversions on assignment to C integers and on return"""

    def __init__(self, ints, ret):
        self.ints, self.ret = ints, ret

    def wrap(self, v):
        c = v.operand if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) else v
        if isinstance(c, ast.Constant) and isinstance(c.value, int):
            return v
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name("int", ast.Load()), v), [v], []), v)

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in self.ints:
            n.value = self.wrap(n.value)
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if self.ret and n.value is not None:
            n.value = self.wrap(n.value)
        return n

    def visit_FunctionDef(self, n):
        return n


class Names(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "__cint__":
            n.func.id = "int"
        if isinstance(n.func, ast.Name) and n.func.id == "prange":
            n.func.id = "range"
            n.keywords = []
        return n


def root_chain(e):
    """a.b.c / a as a key, else None"""
    p = []
    while isinstance(e, ast.Attribute):
        p.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        return (e.id,) + tuple(reversed(p))
    return None


def pointers(fn, getters):
    """pointer variables become flat copies of the arrays they point to; the
    ones written through are copied back before every exit"""
    flat = {}
    written = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Subscript):
                    b = t.value
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Name):
                        written.add(b.id)
    back = []

    class P(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "__ptr__" and len(n.args) == 1:
                a = n.args[0]
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in getters:
                    a = a.args[0]
                elif isinstance(a, ast.Attribute) and a.attr == "data":
                    a = a.value
                elif isinstance(a, ast.Call) and ast.unparse(a.func).endswith("PyArray_DATA"):
                    a = a.args[0]
                else:
                    raise Untranslatable("pointer to " + ast.unparse(a))
                r = ast.parse("__flat__(X)", mode="eval").body
                r.args[0] = a
                return ast.copy_location(ast.fix_missing_locations(r), n)
            return n

        def visit_FunctionDef(self, n):
            return n

    fn.body = [P().visit(s) for s in fn.body]
    for s in ast.walk(fn):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "__flat__":
            t = s.targets[0]
            if isinstance(t, ast.Name) and t.id in written:
                c = root_chain(s.value.args[0])
                if c is None or t.id in flat:
                    raise Untranslatable("written pointer to " + ast.unparse(s.value.args[0]))
                flat[t.id] = s.value.args[0]
    for nm, e in flat.items():
        x = ast.unparse(e)
        back.append("%s[...] = %s.reshape(%s.shape)" % (x, nm, x))
    if not back:
        return

    def stm(at):
        out = []
        for b in back:
            s = ast.parse(b).body[0]
            for q in ast.walk(s):
                ast.copy_location(q, at)
            ast.copy_location(s, at)
            ast.fix_missing_locations(s)
            out.append(s)
        return out

    class B(ast.NodeTransformer):
        """copy back before every return that follows the binding"""
        def visit_Return(self, n):
            return stm(n) + [n]

        def visit_FunctionDef(self, n):
            return n

    first = min(s.lineno for s in ast.walk(fn) if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id in flat)
    body = []
    for s in fn.body:
        if s.lineno > first:
            r = B().visit(s)
            body += r if isinstance(r, list) else [r]
        else:
            body.append(s)
    if not isinstance(body[-1], ast.Return):
        body += stm(body[-1])
    fn.body = body


def module(root, rel):
    path = os.path.join(root, rel)
    src = open(path).read()
    py, ptypes, rtypes, vtypes = rewrite(src)
    tree = ast.parse(py)
    failed = {}
    getters = set()
    funcs = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]
    for f in funcs:
        r = rtypes.get(f.lineno, "")
        body = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if "*" in r and len(body) == 1 and isinstance(body[0], ast.Return) and ast.unparse(body[0].value) == "__ptr__(%s.data)" % (
                f.args.args[0].arg if f.args.args else ""):
            getters.add(f.name)
            body[0].value = ast.copy_location(ast.Name(f.args.args[0].arg, ast.Load()), body[0].value)
    for f in funcs:
        end = f.end_lineno
        ints = {nm for ln, nm, ty in vtypes if f.lineno <= ln <= end and "*" not in ty and "[" not in ty and is_int(ty)}
        ints |= {nm for nm, ty in ptypes.get(f.lineno, {}).items() if is_int(ty)}
        arrs = {nm: ty for ln, nm, ty in vtypes if f.lineno <= ln <= end and ty.endswith("[]") and is_int(ty[:-2])}
        r = rtypes.get(f.lineno, "")
        p = Post(ints, r and "*" not in r and is_int(r))
        f.body = [p.visit(s) for s in f.body]
        try:
            if f.name not in getters:
                pointers(f, getters)
        except Untranslatable as e:
            failed[f.name] = str(e)
        f.cython = ptypes.get(f.lineno, {}), arrs
    tree = Names().visit(tree)
    ast.fix_missing_locations(tree)
    return path, tree, failed
