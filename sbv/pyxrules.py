"""Raw buffers in the Cython sources: a pointer into an array is walked with
unit steps, so the array has to be contiguous by construction."""
from __future__ import annotations

import ast
import os
import re

from . import pyxfront
from .front import AnalysisBroken
from .props import Finding

MAKES = {"zeros", "empty", "ones", "full", "ascontiguousarray", "zeros_like", "copy", "require", "array"}
REL = "skbeam/core/accumulators/histogram.pyx"


def made(e, binds, params, depth=0):
    """True: contiguous by construction; False: the caller's layout; None: unknown"""
    if depth > 6:
        return None
    if isinstance(e, ast.Call):
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        if nm in MAKES:
            if nm in ("array", "copy") and not any(k.arg == "order" for k in e.keywords):
                return None
            return True
        if nm in ("asarray", "atleast_1d", "reshape", "asanyarray") and e.args:
            r = made(e.args[0], binds, params, depth + 1)
            return r
        if nm in ("tuple", "list", "iter", "reversed", "sorted") and len(e.args) == 1:
            return made(e.args[0], binds, params, depth + 1)
        return None
    if isinstance(e, (ast.GeneratorExp, ast.ListComp)):
        b = dict(binds)
        for g in e.generators:
            if isinstance(g.target, ast.Name):
                b[g.target.id] = [g.iter]
        return made(e.elt, b, params, depth + 1)
    if isinstance(e, ast.Subscript):
        return made(e.value, binds, params, depth + 1)
    if isinstance(e, ast.Name):
        vs = binds.get(e.id, [])
        if not vs:
            return False if e.id in params else None
        rs = [made(v, {k: x for k, x in binds.items() if k != e.id}, params, depth + 1) for v in vs]
        if all(r is True for r in rs):
            return True
        return False if any(r is False for r in rs) else None
    return None


NARROW = re.compile(r"^(?:unsigned\s+|signed\s+|const\s+)*(?:[\w]+\.)?(?:short|char|u?int8_t|u?int16_t)$")
DIMS = 10


def capacity(path, rep):
    """C arrays holding one entry per dimension hold as many as a histogram may
    have; variables used as an index can hold every index"""
    rep.rules.append("C arrays in the Cython code have room for all dimensions; no index is kept in an integer narrower than 32 bits")
    consts = {}
    lines = list(pyxfront.logical(open(path).read()))
    text = [(k, pyxfront.uncomment(t)) for k, t in numbered(lines)]
    body = "\n".join(t for _, t in text)
    for k, t in text:
        m = re.match(r"\s*DEF\s+(\w+)\s*=\s*(\d+)\s*$", t)
        if m:
            consts[m.group(1)] = int(m.group(2))
        m = pyxfront.CFUNC.match(t)
        if m:
            if m.group("ty") and not m.group("st") and NARROW.match(m.group("ty").strip()):
                rep.findings.append(Finding("index-type", m.group("name"), "%s:%d" % (REL, k), "returns an index in type %s" % m.group("ty").strip()))
            continue
        m = pyxfront.CVAR.match(t)
        if not m:
            continue
        for v in pyxfront.split_top(m.group("rest")):
            a = re.match(r"^\s*(\**)\s*(\w+)\s*\[\s*([^\]:,]+)\s*\]\s*$", v)
            if a:
                e = re.sub(r"[A-Za-z_]\w*", lambda x: str(consts.get(x.group(0), x.group(0))), a.group(3))
                if re.fullmatch(r"[\d\s+*()-]+", e):
                    rep.count("c_arrays")
                    n = const_int(e)
                    if n is not None and n < DIMS and a.group(2) + "[" in body.replace(t, ""):
                        rep.findings.append(Finding("capacity", a.group(2), "%s:%d" % (REL, k),
                                                    "has room for %d entries, a histogram may have %d dimensions" % (n, DIMS)))
                continue
            a = re.match(r"^\s*(\w+)\s*(=.*)?$", v, re.S)
            if a and NARROW.match(m.group("ty").strip()):
                x = re.escape(a.group(1))
                if re.search(r"\[[^\[\]\n]*\b%s\b[^\[\]\n]*\]|\bfor\s+%s\s+in\b|\b%s\s*=\s*find_indices" % (x, x, x), body):
                    rep.findings.append(Finding("index-type", a.group(1), "%s:%d" % (REL, k), "an index is kept in type %s" % m.group("ty").strip()))


def const_int(e):
    try:
        v = ast.parse(e.strip(), mode="eval").body
    except SyntaxError:
        return None

    def val(n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.BinOp):
            a, b = val(n.left), val(n.right)
            return a + b if isinstance(n.op, ast.Add) else a - b if isinstance(n.op, ast.Sub) else a * b
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -val(n.operand)
        raise ValueError
    try:
        return val(v)
    except (ValueError, TypeError):
        return None


def numbered(lines):
    """(line number, logical line)"""
    k = 1
    for x in lines:
        if isinstance(x, tuple):
            a, b = x[:2]
            yield (a, b) if isinstance(a, int) else (b, a)
        else:
            yield k, x
            k += x.count("\n") + 1


def analyse(prog, rep, tier, seed):
    rep.rules.append("every array whose buffer the Cython code reads or writes through a bare pointer is contiguous by "
                     "construction (made by an allocating call or np.ascontiguousarray), never an array with the caller's strides")
    path = os.path.join(prog.root, REL)
    if not os.path.exists(path):
        raise AnalysisBroken("anchor vanished: " + REL)
    capacity(path, rep)
    _, tree, failed = pyxfront.module(prog.root, REL)
    for c in [n for n in tree.body if isinstance(n, ast.ClassDef)] + [tree]:
        fns = [f for f in c.body if isinstance(f, ast.FunctionDef)]
        attrs = {}
        for f in fns:
            for n in ast.walk(f):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            attrs.setdefault(t.attr, []).append((n.value, f))
        for f in fns:
            binds = {}
            params = [a.arg for a in f.args.args + f.args.kwonlyargs] + ([f.args.vararg.arg] if f.args.vararg else [])
            order = []
            for n in ast.walk(f):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    order.append((n.lineno, n.targets[0].id, n.value))
                elif isinstance(n, ast.For) and isinstance(n.target, ast.Name):
                    order.append((n.lineno, n.target.id, n.iter))
            for ln, nm, v in sorted(order, key=lambda x: x[0]):
                binds.setdefault(nm, []).append(v)
            if f.name in failed:
                rep.undecided.append("%s: %s not translated: %s" % (REL, f.name, failed[f.name]))
                continue
            for n in ast.walk(f):
                if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "__flat__"):
                    continue
                rep.count("raw_buffers")
                e = n.args[0]
                where = "%s:%d (%s)" % (REL, n.lineno, f.name)
                if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
                    rs = [made(v, {}, [a.arg for a in g.args.args]) for v, g in attrs.get(e.attr, [])]
                    r = True if rs and all(x is True for x in rs) else False if any(x is False for x in rs) else None
                else:
                    r = made(e, binds, params)
                if r is True:
                    rep.count("raw_buffers_contiguous")
                elif r is False:
                    rep.findings.append(Finding("contiguous-buffer", "pointer into " + ast.unparse(e), where,
                                                "the array keeps the caller's strides but is walked with unit steps"))
                else:
                    rep.undecided.append("%s: origin of %s not resolved" % (where, ast.unparse(e)))
