"""Equivalence obligations: repository function (or a driver over its public
API) against a written requirement, both as value graphs."""
from __future__ import annotations

import ast
import os
import sys

from . import rint
from . import terms as tm
from .build import Budget, Builder, FILES, tree_cond
from .front import AnalysisBroken, Program
from .terms import FALSE, T

SPECDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")

sys.setrecursionlimit(200000)


class Obl:
    def __init__(self, name, specfunc, target=None, driver=None, observe=("ret", "raise", "effects", "yields", "files"),
                 doms=None, opaque=(), optional=False, note=""):
        self.name = name
        self.specfunc = specfunc
        self.target = target
        self.driver = driver
        self.observe = observe
        self.doms = doms or {}
        self.opaque = opaque
        self.optional = optional


class Result:
    def __init__(self, obl, observable, verdict, diff=None, where=""):
        self.obl = obl
        self.observable = observable
        self.verdict = verdict
        self.diff = diff
        self.where = where


def load_specs(prog, name):
    """parse /verif/specs/<name>.py; returns the obligations it declares"""
    p = os.path.join(SPECDIR, name + ".py")
    src = open(p).read()
    tree = ast.parse(src)
    for n in tree.body:
        if isinstance(n, ast.ImportFrom) and n.module and n.module.startswith("spec_") and n.module not in prog.modules:
            q = os.path.join(SPECDIR, n.module[5:] + ".py")
            qs = open(q).read()
            prog.add_module(n.module, q, ast.parse(qs), qs)
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "STUBS":
            for x in ast.literal_eval(n.value):
                q = os.path.join(SPECDIR, "stubs", x + ".py")
                qs = open(q).read()
                prog.add_module(x, q, ast.parse(qs), qs)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "CSRC":
            from . import cfront
            for x in ast.literal_eval(n.value):
                cf, ct, failed = cfront.module(prog.root, x)
                mod = prog.add_module("csrc." + os.path.basename(x)[:-2], cf.path, ct, "")
                mod.cfile, mod.failed = cf, failed
                mod.cmethods = cfront.methods(cf)
                mod.creach = {py: cf.reach(c) for py, c in mod.cmethods.items()}
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "PYX":
            from . import pyxfront
            for x in ast.literal_eval(n.value):
                q, pt, failed = pyxfront.module(prog.root, x)
                mod = prog.add_module(x[:-4].replace("/", "."), q, pt, "")
                mod.pyxfailed = failed
    m = prog.add_module("spec_" + name, p, tree, src)
    out = []
    for f in m.funcs.values():
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "spec":
                kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                tgt = ast.literal_eval(d.args[0]) if d.args else None
                drv = kw.pop("driver", None)
                if drv:
                    drv = m.funcs[drv]
                out.append(Obl(f.qual, f, tgt, drv, **kw))
    return out


def check(prog, obl, samples=60, seed=1, thorough=False):
    if obl.target:
        func = prog.func(obl.target)
        if func is None:
            if obl.optional:
                return [Result(obl, "anchor", rint.UNKNOWN, where=obl.target)], None
            raise AnalysisBroken("anchor vanished: " + obl.target)
    else:
        func = obl.driver
        for n in ast.walk(func.node):
            if isinstance(n, ast.ImportFrom) and getattr(prog.modules.get(n.module), "pyxfailed", None):
                m = prog.modules[n.module]
                return [Result(obl, "all", rint.UNKNOWN, rint.Diff(rint.UNKNOWN, None, None, "Cython construct not translated: %s" % m.pyxfailed),
                               os.path.relpath(m.path, prog.root))], None
            if isinstance(n, ast.ImportFrom) and (n.module or "").startswith("csrc."):
                m = prog.modules[n.module]
                for a in n.names:
                    if a.name not in m.cmethods:
                        raise AnalysisBroken("anchor vanished: %s in %s" % (a.name, m.path))
                    if a.name not in m.funcs or set(m.failed) & m.creach[a.name]:
                        return [Result(obl, "all", rint.UNKNOWN, rint.Diff(rint.UNKNOWN, None, None, "C construct not translated: %s" % m.failed),
                                       os.path.relpath(m.path, prog.root))], None
    sf = obl.specfunc
    names = {k: p for k, p in enumerate(sf.params) if k < len(func.params)}
    where = func.where()
    for n in ast.walk(func.node):
        if isinstance(n, ast.ImportFrom) and (n.module or "").startswith("csrc."):
            where = prog.modules[n.module].funcs[n.names[0].name].where()
    nkw = len(func.node.args.kwonlyargs) + (2 if func.node.args.kwarg else 0)
    if len(func.params) + nkw < len(sf.params):
        # a required parameter is gone
        return [Result(obl, "signature", rint.DIFFERENT,
                       rint.Diff(rint.DIFFERENT, None, None, "parameters %s are gone from the signature" %
                                 (sf.params[len(func.params):],)), where)], None
    bs = Builder(prog, opaque=obl.opaque)
    try:
        ss = bs.summarise(sf)
    except Budget:
        raise AnalysisBroken("requirement too large: " + obl.name)
    bi = Builder(prog, opaque=obl.opaque)
    if func.cls is not None:
        bi.self_cls = func.cls
    res = []
    try:
        si = bi.summarise(func, names)
    except Budget:
        return [Result(obl, "all", rint.UNKNOWN, rint.Diff(rint.UNKNOWN, None, None, "analysis budget"), where)], bi
    cmpr = rint.Comparer(samples, obl.doms, list(ss.assumes), seed)

    def cmp(label, a, b):
        v, d = cmpr.compare(a, b)
        res.append(Result(obl, label, v, d, where))

    # defaults (part of the public contract)
    for k, dv in ss.defaults.items():
        if dv.op == "sym" and dv.args[0] == "default":
            continue
        iv = si.defaults.get(k)
        if iv is None:
            res.append(Result(obl, "default of " + k, rint.DIFFERENT,
                              rint.Diff(rint.DIFFERENT, dv, None, "parameter %s lost its default" % k), where))
        elif iv is not dv:
            cmp("default of " + k, dv, iv)
    # exceptions first: values only matter where nothing is raised
    sr = tm.OR(*ss.raises.values()) if ss.raises else FALSE
    ir = tm.OR(*si.raises.values()) if si.raises else FALSE
    if "raise" in obl.observe:
        for e in sorted(set(ss.raises) | set(si.raises)):
            a, b = ss.raises.get(e, FALSE), si.raises.get(e, FALSE)
            if a is b:
                res.append(Result(obl, "raises " + e, rint.EQUAL, None, where))
            else:
                v, d = compare_raises(a, b, list(ss.assumes), samples, obl.doms, seed)
                res.append(Result(obl, "raises " + e, v, d, where))
    cmpr2 = rint.Comparer(samples, obl.doms, list(ss.assumes) + ([tm.NOT(sr)] if sr is not FALSE else []), seed)

    def cmp2(label, a, b):
        v, d = cmpr2.compare(a, b)
        res.append(Result(obl, label, v, d, where))

    if "ret" in obl.observe and not ss.is_gen:
        if ss.ret.op == "tuple" and si.ret.op == "tuple" and len(ss.ret.args) == len(si.ret.args):
            for k, (a, b) in enumerate(zip(ss.ret.args, si.ret.args)):
                cmp2("result[%d]" % k, a, b)
        else:
            cmp2("result", ss.ret, si.ret)
    if "yields" in obl.observe and ss.is_gen:
        if not si.is_gen:
            res.append(Result(obl, "yields", rint.UNKNOWN, rint.Diff(rint.UNKNOWN, None, None, "not a generator"), where))
        else:
            cmp2("yields", ss.yields, si.yields)
    if "effects" in obl.observe:
        roots = {tm.var(p) for p in sf.params}
        locs = set(ss.effects) | set(si.effects)
        for l in sorted(locs, key=tm.skey):
            if not visible(l):
                continue
            a, b = ss.effects.get(l, l), si.effects.get(l, l)
            cmp2("final " + tm.show(l), a, b)
    if "files" in obl.observe and (ss.files is not None or si.files is not None):
        cmp2("files written", ss.files or FILES, si.files or FILES)
    if "world" in obl.observe:
        cmp2("world", ss.world or tm.NONE, si.world or tm.NONE)
    if any("unsupported" in n for n in si.notes):
        for r in res:
            if r.verdict == rint.DIFFERENT:
                r.verdict = rint.UNKNOWN
    return res, bi


def disjuncts(t):
    return list(t.args) if t.op == "or" else [] if t is FALSE else [t]


def compare_raises(a, b, assumes, samples, doms, seed):
    """two raise conditions; one reason that nearly always applies must not
    hide the others, so each is also compared with the rest excluded"""
    verdict, diff = rint.Comparer(samples, doms, assumes, seed).compare(a, b)
    if verdict == rint.DIFFERENT:
        return verdict, diff
    da, db = disjuncts(a), disjuncts(b)
    if len(da) + len(db) < 2 or len(da) > 16:
        return verdict, diff
    doms_ = [[tm.NOT(x) for x in da], [tm.NOT(x) for x in db]]
    for k, x in enumerate(da):
        doms_.append([tm.NOT(y) for y in da if y is not x])
        if x.op == "and":
            doms_.append([tm.NOT(y) for y in da if y is not x] + [x])
    for dom in doms_:
        v, d = rint.Comparer(samples, doms, assumes + dom, seed).compare(a, b)
        if v == rint.DIFFERENT:
            return v, d
        if v == rint.UNKNOWN and verdict == rint.EQUAL and not (d is not None and "too few" in d.why):
            verdict, diff = v, d
    return verdict, diff


def visible(l):
    while l.op == "select":
        l = l.args[0]
    return l.op == "var"
