"""An extra step: the value found is the value required, except that some
part of it went through one more operation which is not the identity on
what that part may be.  Taking the step out gives the requirement back, so
nothing else makes up for it."""
from __future__ import annotations

import os

from . import terms as tm

DEBUG = os.environ.get("SBV_EXTRA")

PASS = {"np.ravel", "np.reshape", "np.array", "np.asarray", "np.squeeze", "np.transpose", "np.copy", "np.atleast_1d", "np.atleast_2d", "tolist",
        "np.mean", "np.median", "np.nanmean", "np.max", "np.min", "np.sum", "np.cumsum", "np.average", "np.append", "np.concatenate", "np.vstack", "np.hstack", "np.sort",
        "max", "min", "float", "np.insert", "np.tile", "np.repeat", "np.delete", "np.roll", "np.flipud", "np.fliplr", "np.flip", "np.stack", "np.dstack",
        "np.take", "np.diagonal", "np.broadcast_to", "np.interp", "np.nansum", "np.nanmax", "np.nanmin"}
FRAC = {"np.mean", "np.median", "np.nanmean", "np.average", "np.linspace", "np.std", "np.var", "np.sqrt", "np.exp", "np.log", "np.log10", "np.sin", "np.cos",
        "np.tan", "np.arcsin", "np.arctan", "np.arctan2", "np.interp", "np.linalg.norm", "np.random.rand", "scipy.stats.binned_statistic", "np.convolve", "scipy.signal.fftconvolve",
        "np.hypot", "np.radians", "np.deg2rad", "np.arccos", "np.gradient"}
SIGNED = {"np.log", "np.log10", "np.sin", "np.cos", "np.diff", "np.gradient", "np.arctan2", "np.arctan", "np.convolve"}
PLACES = {"np.searchsorted", "np.argmin", "np.argmax", "np.digitize"}
ORDERLESS = {"len", "in", "np.sum", "np.max", "np.min", "max", "min", "np.unique", "set", "np.any", "np.all", "np.mean", "np.median", "sorted", "np.sort", "np.isin",
             "np.in1d"}


class Facts:
    """what a value may be; False means not known"""

    def __init__(self, doms):
        self.doms = doms or {}

    def dom(self, x):
        d = self.doms.get(x.args[0])
        return d if isinstance(d, str) else ""

    def frac(self, x, n=40):
        """may have digits after the point"""
        if n == 0 or tm.is_bool(x):
            return False
        o = x.op
        if o == "var":
            return "int" not in self.dom(x) and self.dom(x) not in ("bool", "mask", "labels")
        if o == "const":
            return isinstance(x.args[1], float) and x.args[1] != int(x.args[1]) if x.args[0] == "float" else False
        if o == "add":
            return any(self.frac(a, n - 1) for a in x.args)
        if o == "mul":
            return any(self.frac(a, n - 1) for a in x.args) or any(a.op == "pow" and (tm.num_of(a.args[1]) or 0) < 0 for a in x.args)
        if o == "pow":
            e = tm.num_of(x.args[1])
            return self.frac(x.args[0], n - 1) or e is not None and (e < 0 or e != int(e))
        if o == "ite":
            return self.frac(x.args[1], n - 1) or self.frac(x.args[2], n - 1)
        if o == "select":
            return x.args[1].op != "field" and self.frac(x.args[0], n - 1)
        if o in FRAC:
            return True
        if o in PASS and x.args:
            return self.frac(x.args[0], n - 1)
        if o in ("list", "tuple"):
            return any(self.frac(a, n - 1) for a in x.args)
        if o in ("fix", "wfix", "store", "append"):
            return False
        return False

    def neg(self, x, n=40):
        """may be negative"""
        if n == 0 or tm.is_bool(x):
            return False
        o = x.op
        if o == "var":
            return not self.dom(x).startswith("pos") and self.dom(x) not in ("nat", "bool", "mask", "labels", "count")
        if o == "const":
            v = tm.num_of(x)
            return v is not None and v < 0
        if o == "add":
            return any(self.neg(a, n - 1) for a in x.args)
        if o == "mul":
            c = [a for a in x.args if a.op == "const"]
            return any(self.neg(a, n - 1) for a in x.args) and not (len(x.args) == 2 and x.args[0] is x.args[1]) or any((tm.num_of(a) or 0) < 0 for a in c)
        if o == "pow":
            e = tm.num_of(x.args[1])
            return e is not None and e == int(e) and int(e) % 2 == 1 and self.neg(x.args[0], n - 1)
        if o == "ite":
            return self.neg(x.args[1], n - 1) or self.neg(x.args[2], n - 1)
        if o == "select":
            return x.args[1].op != "field" and self.neg(x.args[0], n - 1)
        if o in SIGNED:
            return True
        if o == "scipy.stats.binned_statistic" and len(x.args) == 3:
            return self.neg(x.args[1], n - 1)
        if o in PASS and x.args:
            return self.neg(x.args[0], n - 1)
        return False

    def big(self, x, n=40):
        """not bounded above by anything fixed"""
        if n == 0 or tm.is_bool(x):
            return False
        o = x.op
        if o == "var":
            return self.dom(x) not in ("bool", "mask", "unit", "prob")
        if o == "len":
            return True
        if o in ("add", "mul"):
            return any(self.big(a, n - 1) for a in x.args) and all(self.big(a, n - 1) or a.op == "const" for a in x.args)
        if o == "ite":
            return self.big(x.args[1], n - 1) or self.big(x.args[2], n - 1)
        if o == "select":
            return self.big(x.args[0], n - 1) if x.args[1].op != "field" else x.args[1].args[0] in ("size",)
        if o in PASS and x.args:
            return self.big(x.args[0], n - 1)
        return False

    def nan(self, x, n=40):
        """may be NaN or infinite when the input is, or by division"""
        if n == 0 or tm.is_bool(x):
            return False
        o = x.op
        if o == "var":
            return "int" not in self.dom(x) and self.dom(x) not in ("bool", "mask", "labels")
        if o in ("add", "mul", "ite", "list", "tuple"):
            return any(self.nan(a, n - 1) for a in x.args)
        if o == "pow":
            return self.nan(x.args[0], n - 1) or (tm.num_of(x.args[1]) or 0) < 0
        if o == "select":
            return x.args[1].op != "field" and self.nan(x.args[0], n - 1)
        if o == "scipy.stats.binned_statistic":
            return True
        if o in FRAC | PASS and x.args:
            return any(self.nan(a, n - 1) for a in x.args if isinstance(a, tm.T) and a.op != "kv")
        return False


def step(t, f, parents):
    """(what the step was applied to, its name) when t is a step that changes something"""
    o, a = t.op, t.args
    if o == "np.nan_to_num" and f.nan(a[0]):
        return a[0], "np.nan_to_num replaces NaN and infinity"
    if o == "np.abs" and f.neg(a[0]):
        return a[0], "np.abs drops the sign"
    if o in ("np.round", "np.around", "round", "np.rint", "np.floor", "np.ceil", "np.trunc", "int") and a and f.frac(a[0]):
        return a[0], "%s drops digits" % o
    if o == "astype" and a[1].op == "dtype":
        d = a[1].args[0]
        if d in ("int64", "int32", "int16", "int8", "uint64", "uint32", "uint16", "uint8"):
            if f.frac(a[0]):
                return a[0], "conversion to %s drops digits" % d
            if tm.is_bool(a[0]) or a[0].op == "astype" and a[0].args[1].op == "dtype" and a[0].args[1].args[0] == "bool":
                if any(p.op == "select" and p.args[1] is t for p in parents.get(t, ())):
                    return a[0], "a mask used as an index becomes a list of positions"
            if f.big(a[0]) and d in ("int16", "int8", "uint16", "uint8"):
                return a[0], "conversion to %s overflows" % d
        if d in ("float32", "float16") and (f.frac(a[0]) or f.big(a[0])):
            return a[0], "conversion to %s drops digits" % d
    if o in ("np.maximum", "np.minimum", "max", "min", "np.clip"):
        xs = [x for x in a if x.op not in ("const", "kv")]
        cs = [x for x in a if x.op == "const"]
        if len(xs) == 1 and cs and len(xs) + len(cs) == len(a) and (o != "np.clip" or a[0] is xs[0]):
            x = xs[0]
            if o in ("np.maximum", "max"):
                lo, hi = cs[0], None
            elif o in ("np.minimum", "min"):
                lo, hi = None, cs[0]
            else:
                lo, hi = (list(cs) + [None])[:2]
            ln = tm.num_of(lo) if lo is not None else None
            hn = tm.num_of(hi) if hi is not None else None
            if ln is not None and ln >= 1 and x.op in PLACES:
                return x, "%s excludes the first place" % o
            if ln is not None and ln <= 0 and f.neg(x) or ln is not None and ln > 0 and (f.neg(x) or f.frac(x)) or hn is not None and f.big(x):
                return x, "%s limits the value" % o
    if o == "select" and a[1].op == "slice" and (tm.int_of(a[1].args[2]) or 1) > 1 and a[0].op not in ("list", "tuple"):
        return a[0], "elements are skipped"
    if o == "select" and a[1].op == "slice" and a[1].args[2] in (tm.NONE, tm.ONE) and a[0].op not in ("list", "tuple"):
        lo, hi = (tm.int_of(x) for x in a[1].args[:2])
        if (a[1].args[0] is tm.NONE or lo is not None) and (a[1].args[1] is tm.NONE or hi is not None):
            if (lo or 0) > 0 or (hi or 0) < 0:
                if not (a[0].op == "select" and a[0].args[1].op == "field" and a[0].args[1].args[0] not in ("real", "imag", "T", "flat", "values")):
                    return a[0], "elements are cut off"
    if o == "np.unique" and len(a) == 1 and a[0].op not in ("np.unique", "np.arange", "sorted", "np.linspace") and \
            not any(p.op in ORDERLESS for p in parents.get(t, ())) and (f.big(a[0]) or f.frac(a[0])):
        return a[0], "np.unique drops repeated elements"
    if o == "mod" and tm.num_of(a[1]) is not None and f.big(a[0]):
        return a[0], "the value wraps around"
    if o == "ite":
        c, x, y = a
        for c, x, y in ((c, x, y), (tm.NOT(c), y, x)):
            # c says something about y; x is a fixed replacement
            if x.op != "const":
                continue
            if c.op == "eq" and y in c.args:
                k = c.args[0] if c.args[1] is y else c.args[1]
                if k.op == "const" and tm.num_of(k) is not None and tm.num_of(x) is not None and tm.num_of(k) != tm.num_of(x) and (f.neg(y) or f.big(y) or f.frac(y)):
                    return y, "the value %s is replaced" % tm.show(k)
            if c.op in ("np.isnan", "np.isinf") and c.args[0] is y and f.nan(y):
                return y, "NaN or infinity is replaced"
            if c.op == "not" and c.args[0].op == "np.isfinite" and c.args[0].args[0] is y and f.nan(y):
                return y, "NaN or infinity is replaced"
    return None


def extra_step(s, i, doms, same, only=None):
    """(term, text) of a step in i that s does not have, or None; same(s, t): t is shown equal to s"""
    have = set(tm.walk(s))
    if len(have) > 4000:
        return None
    f = Facts(doms)
    parents = {}
    new = []
    for t in tm.walk(i):
        for x in t.args:
            if isinstance(x, tm.T):
                parents.setdefault(x, []).append(t)
        if t not in have and (only is None or t.op in only or t.op in ("max", "np.maximum", "np.clip") and any(x.op in PLACES for x in t.args)):
            new.append(t)
    kinds = {}
    for t in new:
        r = step(t, f, parents)
        if r is not None:
            kinds.setdefault((t.op, r[1]), []).append((t, r[0]))
    for (op, why), lst in kinds.items():
        groups = [lst] + ([[x] for x in lst] if 1 < len(lst) <= 4 else [])
        for g in groups:
            j = i
            for _ in range(3):
                m = {t: x for t, x in g}
                # steps inside steps
                m2 = {t: tm.subst(x, {k: v for k, v in m.items() if k is not t}) for t, x in m.items()}
                j2 = tm.subst(j, m2)
                if j2 is j:
                    break
                j = j2
            if DEBUG:
                print("EXTRA", op, why, len(g), tm.show(g[0][0])[:200], "\n  ->", tm.show(j)[:300])
            if j is not i and (j is s or same(s, j)):
                return g[0][0], why
    return None


def sizeish(x, doms):
    if x.op == "ite":
        return sizeish(x.args[1], doms) and sizeish(x.args[2], doms)
    if x.op == "len":
        return any(t.op == "var" for t in tm.walk(x.args[0])) and not tm.bvh(x)
    if x.op == "select" and x.args[1].op == "field":
        return x.args[1].args[0] == "size"
    if x.op == "select" and x.args[0].op == "select" and x.args[0].args[1].op == "field" and x.args[0].args[1].args[0] == "shape":
        return True
    return x.op == "var" and str(doms.get(x.args[0]) or "") == "posint"


def special_case(s, i, doms, same, differ):
    """a size at which i goes another way than s, with another result"""
    have = set(tm.walk(s))
    seen = 0
    for t in tm.walk(i):
        if t in have or t.op not in ("eq", "ne", "lt", "le") or len(t.args) != 2:
            continue
        n = [tm.num_of(a) for a in t.args]
        k = [x for x in n if x is not None]
        o = [a for a, x in zip(t.args, n) if x is None]
        if len(k) != 1 or len(o) != 1 or k[0] < 3 or not sizeish(o[0], doms):
            continue
        seen += 1
        if seen > 4:
            return None
        for val, other in ((tm.TRUE, tm.FALSE), (tm.FALSE, tm.TRUE)):
            a = tm.subst(i, {t: val})
            if a is s or same(s, a):
                c = t if other is tm.TRUE else tm.NOT(t)
                d = differ(s, tm.subst(i, {t: other}), c)
                if d is not None:
                    return t, d
    return None
