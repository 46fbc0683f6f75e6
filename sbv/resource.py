"""Files and worker pools: every acquisition is released on every path, the
ones on which an exception passes included."""
from __future__ import annotations

import ast

from .front import dotted_name
from .props import Finding
from .purity import Analysis, functions, where

FILES = {"open", "io.open", "os.fdopen", "gzip.open", "bz2.open", "lzma.open", "codecs.open", "tempfile.TemporaryFile", "tempfile.NamedTemporaryFile",
         "Dataset", "netCDF4.Dataset", "h5py.File", "tarfile.open", "zipfile.ZipFile", "os.open"}
POOLS = {"multiprocessing.Pool", "Pool", "mp.Pool", "multiprocessing.pool.ThreadPool", "ThreadPool", "ThreadPoolExecutor", "ProcessPoolExecutor",
         "concurrent.futures.ThreadPoolExecutor", "concurrent.futures.ProcessPoolExecutor"}
RELEASE = {"close", "terminate", "shutdown", "__exit__", "cleanup", "kill"}
WRAP = {"closing", "contextlib.closing", "enter_context"}
SAFE = {"len", "int", "str", "float", "list", "dict", "tuple", "format", "isinstance", "getLogger", "info", "debug", "warning", "error"}


def acquires(f, e):
    if not isinstance(e, ast.Call):
        return None
    d = dotted_name(e.func) or ""
    if not d:
        return None
    p = d.split(".")
    full = f.mod.imports.get(p[0])
    names = {d}
    if full:
        names.add(".".join([full] + p[1:]))
    if d == "open" and "open" in f.mod.funcs:
        return None
    if names & FILES:
        return "file"
    if names & POOLS:
        return "worker pool"
    return None


BORROW = {"np", "numpy", "json", "pickle", "struct", "print", "enumerate", "iter", "list", "tuple", "next", "sorted", "zip", "len", "str", "repr", "logger",
          "logging", "map", "filter", "isinstance", "islice", "itertools", "hasattr", "getattr", "yaml"}


def keeps(an, f, call, x, depth=4):
    """may the function called take over, release or keep the object x?  (None: not known)"""
    d = dotted_name(call.func) or ""
    if d.split(".")[0] in BORROW:
        return False
    t = an.target(f, call)
    if t is None or depth == 0:
        return True
    g, bound = t
    ps = [a.arg for a in g.node.args.posonlyargs + g.node.args.args][1 if bound else 0:]
    mine = [p for p, a in zip(ps, call.args) if isinstance(a, ast.Name) and a.id == x]
    mine += [k.arg for k in call.keywords if isinstance(k.value, ast.Name) and k.value.id == x]
    if len(mine) != 1 or mine[0] is None:
        return True
    p = mine[0]
    for n in ast.walk(g.node):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Yield, ast.YieldFrom)) and n is not g.node:
            return True
        if isinstance(n, ast.Name) and n.id == p:
            continue
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == p:
                if n.func.attr in RELEASE:
                    return True
                continue
            if any(isinstance(a, ast.Name) and a.id == p for a in n.args + [k.value for k in n.keywords]) and keeps(an, g, n, p, depth - 1):
                return True
        elif isinstance(n, (ast.Return, ast.Assign, ast.withitem)):
            v = n.value if not isinstance(n, ast.withitem) else n.context_expr
            if v is not None and any(isinstance(y, ast.Name) and y.id == p for y in ([v] + (list(v.elts) if isinstance(v, (ast.Tuple, ast.List)) else []))):
                return True
            if isinstance(n, ast.withitem) and any(isinstance(y, ast.Name) and y.id == p for y in ast.walk(v)):
                return True
    return False


def releases(body, x):
    """does this block release x whenever it is run?  True / False / None"""
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == x and n.func.attr in RELEASE:
                if isinstance(s, (ast.If, ast.For, ast.While)):
                    t = getattr(s, "test", None)
                    if isinstance(s, ast.If) and t is not None and any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(t)):
                        return True         # released when there is one
                    return None
                return True
    if any(isinstance(n, ast.Name) and n.id == x for s in body for n in ast.walk(s)):
        return None                         # handed to something else
    return False


def harmless(s):
    """a statement that cannot realistically raise"""
    for n in ast.walk(s):
        if isinstance(n, ast.Call):
            d = (dotted_name(n.func) or "").split(".")[-1]
            if d not in SAFE:
                return False
        elif isinstance(n, (ast.Subscript, ast.Raise, ast.Assert, ast.For, ast.While, ast.With, ast.Await, ast.Yield)):
            return False
    return True


def chain(body, out=None):
    """all statement lists of a function, without nested functions"""
    out = [] if out is None else out
    out.append(body)
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(s, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                chain(b, out)
        for h in getattr(s, "handlers", ()):
            chain(h.body, out)
    return out


def inside(body, s):
    return any(n is s for b in body for n in ast.walk(b))


def analyse(prog, rep, tier, seed):
    rep.rules.append("release: an acquired file or pool is a context manager's, or released in a finally clause nothing can bypass, or handed to the caller")
    an = Analysis(prog)
    for f in functions(prog):
        rep.count("functions analysed")
        nested = [n for n in ast.walk(f.node) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f.node]
        skip = {id(x) for n in nested for x in ast.walk(n)}
        parents = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                parents[c] = n
        tries = [n for n in ast.walk(f.node) if isinstance(n, ast.Try) and n.finalbody]
        for call in ast.walk(f.node):
            kind = acquires(f, call)
            if kind is None:
                continue
            rep.count("acquisitions")
            what = ast.unparse(call)[:50]
            if id(call) in skip:
                rep.undecided.append("%s: %s in a nested function" % (f.name, what))
                continue

            def bad(msg):
                rep.findings.append(Finding("release", "%s(%s)" % (f.name, what), where(f, call), "the %s %s %s" % (kind, what, msg)))

            par = parents.get(call)
            if isinstance(par, ast.withitem) or isinstance(par, ast.Return):
                rep.count("released")
                continue
            if isinstance(par, ast.Call) and ((dotted_name(par.func) or "").split(".")[-1] in ("closing", "enter_context")):
                rep.count("released")
                continue
            if isinstance(par, ast.Attribute) and isinstance(parents.get(par), ast.Call):
                # open(...).read(): nobody holds the object
                if par.attr in RELEASE:
                    continue
                bad("is used once and never closed")
                continue
            if isinstance(par, ast.For) and par.iter is call:
                bad("is iterated over and never closed")
                continue
            if not (isinstance(par, (ast.Assign, ast.AnnAssign)) and isinstance(par.targets[0] if isinstance(par, ast.Assign) else par.target, ast.Name)):
                if isinstance(par, ast.Expr):
                    bad("is dropped at once")
                else:
                    rep.undecided.append("%s: %s is kept in an expression" % (f.name, what))
                continue
            x = (par.targets[0] if isinstance(par, ast.Assign) else par.target).id
            v = verdict(f, par, x, tries, an)
            if v is True:
                rep.count("released")
            elif v is None:
                rep.undecided.append("%s: %s" % (f.name, what))
            else:
                bad(v)


def verdict(f, stmt, x, tries, an):
    uses = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == x and n is not (stmt.targets[0] if isinstance(stmt, ast.Assign) else stmt.target)]
    # handed out or stored: someone else's
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Name) and n.value.id == x:
            return True
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == x:
            return None
        if isinstance(n, ast.withitem) and any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(n.context_expr)):
            return True
    # acquired inside a try whose finally releases it
    unclear = False
    for t in tries:
        if inside(t.body, stmt):
            r = releases(t.finalbody, x)
            if r:
                return True
            unclear |= r is None
    for body in chain(f.node.body):
        if not any(s is stmt for s in body):
            continue
        i = next(k for k, s in enumerate(body) if s is stmt)
        for s in body[i + 1:]:
            if isinstance(s, ast.Try) and s.finalbody:
                r = releases(s.finalbody, x)
                if r:
                    return True
                unclear |= r is None
            if isinstance(s, ast.Try) and not s.finalbody:
                # except: release; raise  and the normal path
                if s.handlers and all(releases(h.body, x) for h in s.handlers) and any(h.type is None or ast.unparse(h.type) == "BaseException" for h in s.handlers):
                    return True if releases(s.orelse + body[body.index(s) + 1:], x) else None
            if isinstance(s, ast.Expr) and releases([s], x):
                return True
            if not harmless(s):
                break
    if unclear:
        return None
    rel = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)
           and n.func.value.id == x and n.func.attr in RELEASE]
    if rel:
        return "is released at line %d, but not when an exception passes before that" % rel[0].lineno
    for n in uses:
        pass
    passed = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and any(
        isinstance(a, ast.Name) and a.id == x for a in n.args + [k.value for k in n.keywords])]
    if any(keeps(an, f, n, x) for n in passed):
        return None
    if any(isinstance(n, (ast.Tuple, ast.List, ast.Dict, ast.Yield)) and any(isinstance(y, ast.Name) and y.id == x for y in ast.iter_child_nodes(n))
           for n in ast.walk(f.node)):
        return None
    return "is never released"
