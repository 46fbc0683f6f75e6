"""Writers reject before they write: on no path does an explicit rejection
(a raise statement, in the writer or in a function it calls) come after the
file system was changed."""
from __future__ import annotations

import ast

from .front import dotted_name
from .props import Finding
from .purity import where

ROOTS = {"C18": ["skbeam.io.save_powder_output:save_output", "skbeam.io.save_powder_output:gsas_writer"],
         "C19": ["skbeam.io.fit2d:fit2d_save"]}
CHANGES = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.truncate", "os.rmdir", "os.makedirs", "os.mkdir", "shutil.move", "shutil.rmtree",
           "shutil.copy", "shutil.copyfile", "np.save", "numpy.save", "np.savez", "os.link", "os.symlink"}


class Walk:
    def __init__(self, prog, rep):
        self.prog = prog
        self.rep = rep
        self.stack = []
        self.bad = []

    def target(self, f, call):
        d = dotted_name(call.func)
        if not d:
            return None
        p = d.split(".")
        if len(p) == 1 and p[0] in f.mod.funcs:
            return f.mod.funcs[p[0]]
        full = f.mod.imports.get(p[0])
        if full:
            r = self.prog.resolve(".".join([full] + p[1:]))
            if r[0] == "func":
                return r[1]
        return None

    def changes(self, f, call):
        d = dotted_name(call.func) or ""
        p = d.split(".")
        full = f.mod.imports.get(p[0])
        names = {d} | ({".".join([full] + p[1:])} if full else set())
        if names & CHANGES:
            return True
        if p[-1] == "open" and names & {"open", "io.open", "gzip.open", "codecs.open"}:
            m = call.args[1] if len(call.args) > 1 else next((k.value for k in call.keywords if k.arg == "mode"), None)
            if m is None:
                return False
            return isinstance(m, ast.Constant) and isinstance(m.value, str) and any(c in m.value for c in "wax+")
        if isinstance(call.func, ast.Attribute) and call.func.attr in ("write", "save", "unlink", "touch", "write_text", "write_bytes"):
            return True
        return False

    # a state is None (nothing changed so far) or the call that changed something; paths are joined by taking any change
    def expr(self, f, e, st):
        for n in calls(e):
            t = self.target(f, n)
            if t is not None and len(self.stack) < 8 and t not in self.stack:
                st = self.func(t, st)
            elif self.changes(f, n):
                self.rep.count("file changes")
                st = st or (f, n)
        return st

    def func(self, f, st):
        self.stack.append(f)
        outs = []
        end = self.body(f, f.node.body, st, outs, False)
        self.stack.pop()
        for o in outs + [end]:
            if o is not DEAD and o:
                return o
        return None

    def body(self, f, body, st, outs, handler):
        for s in body:
            if st is DEAD:
                return DEAD
            st = self.stmt(f, s, st, outs, handler)
        return st

    def stmt(self, f, s, st, outs, handler):
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                st = self.expr(f, s.exc, st)
            self.rep.count("rejections")
            if st and not handler:
                self.bad.append((f, s, st))
            return DEAD
        if isinstance(s, ast.Return):
            if s.value is not None:
                st = self.expr(f, s.value, st)
            outs.append(st)
            return DEAD
        if isinstance(s, ast.If):
            st = self.expr(f, s.test, st)
            return join(self.body(f, s.body, st, outs, handler), self.body(f, s.orelse, st, outs, handler))
        if isinstance(s, (ast.For, ast.While)):
            st = self.expr(f, s.iter if isinstance(s, ast.For) else s.test, st)
            for _ in range(2):
                st = join(st, self.body(f, s.body, st, outs, handler))
            return self.body(f, s.orelse, st, outs, handler)
        if isinstance(s, ast.With):
            for i in s.items:
                st = self.expr(f, i.context_expr, st)
            return self.body(f, s.body, st, outs, handler)
        if isinstance(s, ast.Try):
            a = self.body(f, s.body, st, outs, handler)
            e = a
            for h in s.handlers:
                e = join(e, self.body(f, h.body, join(st, a), outs, True))
            e = self.body(f, s.orelse, e, outs, handler)
            return self.body(f, s.finalbody, e, outs, handler) if e is not DEAD else DEAD
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return st
        return self.expr(f, s, st)


DEAD = ("dead",)


def join(a, b):
    if a is DEAD:
        return b
    if b is DEAD:
        return a
    return a or b


def calls(e):
    """calls in order of evaluation (arguments first)"""
    for c in ast.iter_child_nodes(e):
        if not isinstance(c, (ast.Lambda, ast.FunctionDef)):
            yield from calls(c)
    if isinstance(e, ast.Call):
        yield e


def analyse(pid):
    def run(prog, rep, tier, seed):
        rep.rules.append("reject first: on no path through a writer and the functions it calls does a raise statement follow a change of the file system")
        for r in ROOTS[pid]:
            mn, _, fn = r.partition(":")
            m = prog.modules.get(mn)
            f = m.funcs.get(fn) if m else None
            if f is None:
                rep.undecided.append("%s is not defined in its module" % r)
                continue
            w = Walk(prog, rep)
            w.func(f, None)
            rep.count("writers analysed")
            for g, s, (cf, cn) in w.bad[:1]:
                rep.findings.append(Finding("reject-first", fn, where(g, s), "a rejection comes after the file system was changed",
                                            "%s: %s" % (where(cf, cn), ast.unparse(cn)[:80])))
    run.__name__ = "filesafe"
    return run
