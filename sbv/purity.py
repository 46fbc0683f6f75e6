"""Which functions write to objects their caller passed in.

A flow-sensitive alias analysis per function with summaries: a value is
described by the parameters (or attributes of self) it may be a view, an
element or the very object of.  Calls the analysis does not know make fresh
values, so a report always rests on an explicit chain of assignments."""
from __future__ import annotations

import ast
import os
import re

from .front import dotted_name
from .props import Finding

VIEWS = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "atleast_3d", "ravel", "reshape",
         "squeeze", "transpose", "swapaxes", "rollaxis", "moveaxis", "expand_dims", "broadcast_to", "diagonal", "real", "imag", "flipud",
         "fliplr", "flip", "rot90", "asfarray", "asmatrix", "view", "split", "array_split", "hsplit", "vsplit", "dsplit"}
HOLDERS = {"list", "tuple", "iter", "reversed", "zip", "enumerate", "sorted", "set", "dict", "OrderedDict", "chain", "tqdm", "filter",
           "islice", "deque"}
MVIEWS = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes", "diagonal", "values", "items", "get", "itervalues", "iteritems"}
MUTATORS = {"sort", "fill", "append", "extend", "insert", "pop", "popitem", "clear", "update", "setdefault", "remove", "reverse", "resize",
            "put", "itemset", "partition", "discard", "appendleft", "popleft", "setfield", "__setitem__", "__delitem__"}
NPMUT = {"copyto": 0, "put": 0, "place": 0, "putmask": 0, "fill_diagonal": 0, "shuffle": 0, "put_along_axis": 0, "resize_": 0,
         "heappush": 0, "heapify": 0, "heappop": 0}
OVER = {"fft", "ifft", "fft2", "ifft2", "fftn", "ifftn", "rfft", "rfft2", "irfft", "irfft2", "solve", "inv", "lu", "qr", "svd", "detrend"}
NOALIAS = {"True", "False", "None"}

ARR = re.compile(r"array|ndarray|list|dict|sequence|iterable|image|mapping|DataFrame", re.I)
SCA = re.compile(r"^\s*(float|int|str|string|bool|boolean|number|scalar|tuple|callable|function|None)\b", re.I)


def doc_types(fn):
    """parameter -> documented type line"""
    d = ast.get_docstring(fn) or ""
    out = {}
    for m in re.finditer(r"^\s*([\w, \*]+?)\s*:\s*(\S.*)$", d, re.M):
        for nm in m.group(1).split(","):
            out.setdefault(nm.strip(" *"), m.group(2))
    return out


def array_names(fn):
    """names used the way only arrays are"""
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in (
                "shape", "ndim", "T", "ravel", "reshape", "flat", "dtype", "astype", "flatten", "size", "nonzero"):
            out.add(n.value.id)
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
            i = n.slice
            if isinstance(i, ast.Compare) or isinstance(i, ast.Tuple):
                out.add(n.value.id)
        elif isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Name):
            d = (dotted_name(n.func) or "").split(".")
            if d[0] in ("np", "numpy") and d[-1] in VIEWS | {"array"}:
                out.add(n.args[0].id)
    # x = np.asarray(y): x is an array too
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            d = (dotted_name(n.value.func) or "").split(".")
            if d[0] in ("np", "numpy") and d[-1] in VIEWS:
                out.add(n.targets[0].id)
    return out


def norm_test(t):
    """a test and its polarity, so that a negated copy is the same test"""
    pos = True
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, pos = t.operand, not pos
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        inv = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq}
        for a, b in inv.items():
            if isinstance(t.ops[0], a):
                return ast.dump(ast.Compare(t.left, [b()], t.comparators)), not pos
    return ast.dump(t), pos


def repeated_tests(fn):
    stored = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
    seen = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.If):
            t = n.test
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t = t.operand
            ok = isinstance(t, ast.Name) or isinstance(t, ast.Compare) and all(
                isinstance(x, (ast.Name, ast.Constant, ast.Compare, ast.cmpop, ast.expr_context)) for x in ast.walk(t))
            if ok and not ({x.id for x in ast.walk(t) if isinstance(x, ast.Name)} & stored):
                k = norm_test(n.test)[0]
                seen[k] = seen.get(k, 0) + 1
    return [k for k, v in seen.items() if v > 1][:4]


def mutable(v):
    if isinstance(v, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(v, ast.Call):
        return (dotted_name(v.func) or "").split(".")[-1] in ("dict", "list", "set", "OrderedDict", "defaultdict", "array", "zeros", "ones", "empty", "arange",
                                                              "linspace", "deque")
    return False


class Mut:
    def __init__(self, node, what, via=()):
        self.node, self.what, self.via = node, what, via


class Summary:
    def __init__(self):
        self.mut = {}       # param -> Mut (definite kind of object)
        self.maybe = {}     # param -> Mut (only if an index picks and does not copy)
        self.weak = {}      # param -> Mut (only if the argument is an array)
        self.ret = frozenset()
        self.attr_mut = {}  # self attribute -> Mut
        self.attr_holds = {} # self attribute -> origins it holds
        self.attr_from = {} # self attribute -> set of (param, kind)


class Flow:
    def __init__(self, an, f):
        self.an, self.f = an, f
        self.s = Summary()
        a = f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.var = [x.arg for x in (a.vararg, a.kwarg) if x is not None]
        self.env = {p: frozenset([(p, "same", 0)]) for p in self.params}
        if a.vararg:
            self.env[a.vararg.arg] = frozenset([("*" + a.vararg.arg, "same", 1)])
        self.method = f.cls is not None and self.params and self.params[0] == "self"
        if self.method:
            self.env["self"] = frozenset()
        self.docs = doc_types(f.node)
        self.loopvars, self.binds = set(), {}
        for n in ast.walk(f.node):
            if isinstance(n, (ast.For, ast.comprehension)):
                it = n.iter
                fn = dotted_name(it.func) if isinstance(it, ast.Call) else None
                if fn == "enumerate" and isinstance(n.target, ast.Tuple):
                    t = n.target.elts[0]
                elif fn in ("range", "arange", "np.arange", "sorted", "list", "np.unique", "np.ndindex") or isinstance(it, (ast.Name, ast.Attribute)) or \
                        fn and fn.split(".")[-1] in ("keys", "product", "items"):
                    t = n.target
                else:
                    continue
                self.loopvars |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.binds.setdefault(t.id, []).append(n.value)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                self.binds.setdefault(x.id, []).append(None)
        for x in self.params:
            self.binds.setdefault(x, []).append(None)
        self.local = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} | set(self.params) | set(self.var)
        self.local -= {x for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names}
        self.arrays = array_names(f.node)
        self.ret = set()
        self.dead = False

    # -- values ---------------------------------------------------------------
    def elem(self, s):
        return frozenset((p, k, h - 1) if h else (p, "maybe" if k == "maybe" else "elem", 0) for p, k, h in s)

    def hold(self, s):
        """a new container with these values in it"""
        return frozenset((p, k, min(h + 1, 6)) for p, k, h in s)

    def rehold(self, s):
        """a new container with the elements of these containers in it"""
        return frozenset((p, k, h) if h else (p, "elem", 1) for p, k, h in s)

    def live(self, s):
        return frozenset(x for x in s if not x[2])

    def al(self, e):
        if e is None:
            return frozenset()
        if isinstance(e, ast.Name):
            if e.id not in self.env and e.id not in self.local:
                return self.shared([e.id])
            return self.env.get(e.id, frozenset())
        if isinstance(e, ast.Attribute):
            d = dotted_name(e)
            if d and d.split(".")[0] not in self.env and d.split(".")[0] not in self.local:
                g = self.shared(d.split("."))
                if g:
                    return g
            if self.method and isinstance(e.value, ast.Name) and e.value.id == "self":
                k = "self." + e.attr
                if k in self.env:
                    return self.env[k]
                return frozenset([(k, "same", 0)])
            b = self.al(e.value)
            if e.attr in ("shape", "size", "ndim", "dtype", "nbytes", "itemsize", "strides", "name"):
                return frozenset()
            if e.attr in ("T", "real", "imag", "flat", "data", "values", "mask"):
                return b
            return self.elem(b)
        if isinstance(e, ast.Subscript):
            b = self.al(e.value)
            if not b:
                return b
            if self.sliced(e.slice):
                return b
            if self.fancy(e.slice):
                return frozenset()
            r = self.elem(b)
            keyed = all(p[0] == "@" and p not in self.an.arrays or "dict" in self.docs.get(p, "") for p, k, h in b)
            return r if keyed or self.single(e.slice) else frozenset((p, "maybe" if not h else k, h) for p, k, h in r)
        if isinstance(e, ast.IfExp):
            return self.al(e.body) | self.al(e.orelse)
        if isinstance(e, ast.BoolOp):
            r = frozenset()
            for v in e.values:
                r |= self.al(v)
            return r
        if isinstance(e, ast.NamedExpr):
            v = self.al(e.value)
            self.env[e.target.id] = v
            return v
        if isinstance(e, ast.Starred):
            return self.elem(self.al(e.value))
        if isinstance(e, (ast.Tuple, ast.List)):
            r = frozenset()
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    r |= self.rehold(self.al(x.value))
                else:
                    r |= self.hold(self.al(x))
            return r
        if isinstance(e, ast.Dict):
            r = frozenset()
            for k, x in zip(e.keys, e.values):
                r |= self.hold(self.al(x)) if k is not None else self.rehold(self.al(x))
            return r
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult)):
            # list concatenation and repetition keep what the lists hold
            return frozenset(x for x in self.al(e.left) | self.al(e.right) if x[2])
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Await):
            return self.al(e.value)
        return frozenset()

    def shared(self, parts):
        """a module-level table"""
        try:
            r = self.an.prog.member(self.f.mod, parts)
        except Exception:
            return frozenset()
        if r and r[0] == "glob":
            k = "@%s.%s" % (r[1].name, r[2])
            vs = [v for _, v, _ in r[1].assigns[r[2]]]
            if vs and all(mutable(v) for v in vs):
                return frozenset([(k, "same", 0)])
        return frozenset()

    def kind_of(self, recv):
        for p, k, h in recv:
            if h == 0 and k == "same" and re.search(r"dict|mapping", self.docs.get(p, ""), re.I):
                return "dict"
        return None

    def sliced(self, i):
        if isinstance(i, ast.Slice):
            return True
        if isinstance(i, ast.Constant) and i.value is Ellipsis:
            return True
        if isinstance(i, ast.Tuple):
            return any(self.sliced(x) or isinstance(x, ast.Constant) and x.value is None for x in i.elts) and not any(self.fancy(x) for x in i.elts)
        return False

    def single(self, i):
        """certainly picks one element (or one row), without a copy"""
        if isinstance(i, ast.Constant):
            return not isinstance(i.value, bool)
        if isinstance(i, ast.Name):
            return i.id in self.loopvars
        if isinstance(i, ast.BinOp):
            return self.single(i.left) and self.single(i.right)
        if isinstance(i, ast.UnaryOp) and isinstance(i.op, ast.USub):
            return self.single(i.operand)
        if isinstance(i, ast.Call):
            return (dotted_name(i.func) or "") in ("int", "len", "str")
        if isinstance(i, ast.Tuple):
            return all(self.single(x) for x in i.elts)
        if isinstance(i, ast.JoinedStr):
            return True
        return False

    def fancy(self, i):
        """certainly an index that copies"""
        if isinstance(i, ast.Name):
            v = self.binds.get(i.id)
            return bool(v) and all(x is not None and not isinstance(x, ast.Name) and self.fancy(x) for x in v)
        if isinstance(i, (ast.Compare, ast.List, ast.ListComp)):
            return True
        if isinstance(i, ast.UnaryOp) and isinstance(i.op, ast.Invert):
            return True
        if isinstance(i, ast.BinOp) and isinstance(i.op, (ast.BitAnd, ast.BitOr)):
            return True
        if isinstance(i, ast.Call):
            n = dotted_name(i.func) or ""
            return n.split(".")[-1] in ("where", "nonzero", "argsort", "flatnonzero", "isnan", "isfinite", "isin", "in1d")
        if isinstance(i, ast.Tuple):
            return any(self.fancy(x) for x in i.elts)
        return False

    def call(self, e):
        args = [self.al(a) for a in e.args]
        kws = {k.arg: self.al(k.value) for k in e.keywords}
        d = dotted_name(e.func) or ""
        last = d.split(".")[-1] if d else (e.func.attr if isinstance(e.func, ast.Attribute) else "")
        tgt = self.an.target(self.f, e)
        # repository functions
        if tgt is not None:
            fn, bound = tgt
            return self.apply(e, fn, bound, args, kws)
        out = kws.get("out")
        if out:
            self.mutate(out, e, "is the out= argument of %s" % (d or last))
            return out
        root = d.split(".")[0] if d else ""
        ext = root in ("np", "numpy", "scipy", "random", "itertools", "math", "six", "heapq", "fftpack", "ndim", "ndi", "signal", "spl", "nd")
        if ext or d in HOLDERS or d in VIEWS or d in NPMUT:
            if last in NPMUT and args and args[NPMUT[last]]:
                self.mutate(args[NPMUT[last]], e, "is modified by %s" % d)
                return frozenset()
            if last == "at" and args:
                self.mutate(args[0], e, "is modified by %s" % d)
                return frozenset()
            if last in OVER and any(k.arg in ("overwrite_x", "overwrite_a", "overwrite_b", "overwrite_data") and isinstance(k.value, ast.Constant) and
                                    k.value.value for k in e.keywords) and args:
                self.mutate(args[0], e, "may be overwritten by %s" % d)
            if last == "nan_to_num" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords):
                if args:
                    self.mutate(args[0], e, "is modified by %s(copy=False)" % d)
                    return args[0]
            if last in ("array", "require") and args and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords):
                return args[0]
            if last in VIEWS and args:
                if any(k.arg == "dtype" for k in e.keywords) or last.startswith("as") and len(e.args) > 1:
                    return args[0]      # no copy when the type already fits
                return args[0]
            if root == "six" and last in ("iteritems", "itervalues") and args:
                v = self.rehold(args[0])
                return self.hold(v) if last == "iteritems" else v
            if d in HOLDERS or ext and last in HOLDERS:
                r = frozenset()
                for a in args:
                    r |= a
                r = self.rehold(r)
                return self.hold(r) if last in ("zip", "enumerate") else r
            if ext:
                return frozenset()
        if d in ("copy.copy", "copy_copy") and args:
            return self.rehold(args[0]) if self.kind_of(args[0]) == "dict" else frozenset(x for x in args[0] if x[2])
        if isinstance(e.func, ast.Attribute):
            recv = self.al(e.func.value)
            if recv:
                m = e.func.attr
                if m in MUTATORS and not (m in ("pop", "get") and False):
                    live = self.live(recv)
                    tv = e.func.value
                    if isinstance(tv, ast.Attribute) and self.method and isinstance(tv.value, ast.Name) and tv.value.id == "self" and args:
                        if m in ("append", "insert", "add", "appendleft", "setdefault"):
                            self.keep(tv.attr, self.hold(args[-1]))
                        elif m in ("extend", "update"):
                            self.keep(tv.attr, self.rehold(args[0]))
                    if m in ("append", "insert", "add", "appendleft", "extend") and isinstance(e.func.value, ast.Name) and args:
                        v = args[-1]
                        v = self.rehold(v) if m == "extend" else self.hold(v)
                        self.env[e.func.value.id] = self.env.get(e.func.value.id, frozenset()) | v
                    if m in ("pop", "popitem", "popleft", "setdefault"):
                        got = self.elem(recv) | (args[-1] if m == "setdefault" and args else frozenset())
                    else:
                        got = frozenset()
                    if live:
                        self.mutate(live, e, "is modified by .%s()" % m)
                    return got
                if m in MVIEWS:
                    if m == "get":
                        return self.elem(recv) | (args[1] if len(args) > 1 else frozenset())
                    if m in ("values", "itervalues"):
                        return self.rehold(recv)
                    if m in ("items", "iteritems"):
                        return self.hold(self.rehold(recv))
                    return recv
                if m == "copy":
                    return self.rehold(recv) if self.kind_of(recv) == "dict" else frozenset(x for x in recv if x[2])
                if m == "astype" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords):
                    return recv
                if m in ("byteswap",) and any(isinstance(k.value, ast.Constant) and k.value.value is True for k in e.keywords):
                    self.mutate(recv, e, "is byte-swapped in place")
        return frozenset()

    def apply(self, e, fn, bound, args, kws):
        s = self.an.summary(fn)
        ps = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
        if bound:
            ps = ps[1:]
        by = {}
        for p, a, x in zip(ps, args, e.args):
            if isinstance(x, ast.Starred):
                break
            by[p] = a
        for k, v in kws.items():
            if k:
                by[k] = v
        for (p, kd), mu in s.mut.items():
            if by.get(p):
                self.mutate(by[p] if kd == "same" else self.elem(by[p]), e, "is passed to %s, where it %s" % (fn.qual, mu.what), via=(mu,))
            elif p[0] == "@":
                m = Mut(mu.node, mu.what, (mu,))
                m.kind = kd
                self.s.mut.setdefault((p, kd), m)
        for p, mu in s.maybe.items():
            if by.get(p):
                self.mutate(frozenset((q, "maybe", h) for q, k, h in by[p]), e, "is passed to %s, where it %s" % (fn.qual, mu.what), via=(mu,))
        for (p, kd), mu in s.weak.items():
            if by.get(p):
                self.mutate(by[p] if kd == "same" else self.elem(by[p]), e, "is passed to %s, where it %s" % (fn.qual, mu.what), weak=True, via=(mu,))
        r = set()
        for p, k, h in s.ret:
            v = by.get(p, frozenset([(p, "same", 0)]) if p[0] == "@" else frozenset())
            if k == "elem":
                v = self.elem(v)
            for _ in range(h):
                v = self.hold(v)
            r |= v
        return frozenset(r)

    # -- effects ----------------------------------------------------------------
    def mutate(self, origins, node, what, weak=False, via=()):
        if self.dead:
            return
        for p, k, h in origins:
            if h:
                continue
            if p.startswith("*"):
                p = p[1:]
            if p.startswith("self."):
                self.s.attr_mut.setdefault((p[5:], k), Mut(node, what, via))
                continue
            if k == "maybe":
                self.s.maybe.setdefault(p, Mut(node, what, via))
                continue
            m = Mut(node, what, via)
            m.kind = k
            m.arr = self.arrays
            if isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Name):
                m.seen = node.target.id in self.arrays
            elif via:
                m.seen = getattr(via[0], "seen", False)
            (self.s.weak if weak else self.s.mut).setdefault((p, k), m)

    def store(self, t, v, node):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x.value if isinstance(x, ast.Starred) else x, self.unpack(v), node)
        elif isinstance(t, ast.Subscript):
            b = self.al(t.value)
            live = self.live(b)
            if live:
                self.mutate(live, node, "is written to (%s)" % ast.unparse(t)[:40])
            if isinstance(t.value, ast.Attribute) and self.method and isinstance(t.value.value, ast.Name) and t.value.value.id == "self":
                self.keep(t.value.attr, self.hold(v))
            # the container now holds v
            if isinstance(t.value, ast.Name) and v and not live:
                self.env[t.value.id] = self.env.get(t.value.id, frozenset()) | self.hold(v)
        elif isinstance(t, ast.Attribute):
            if self.method and isinstance(t.value, ast.Name) and t.value.id == "self":
                self.env["self." + t.attr] = v
                self.keep(t.attr, v)
                self.s.attr_from.setdefault(t.attr, set()).update(x for x in self.live(v) if not x[0].startswith("self."))
                return
            b = self.al(t.value)
            live = self.live(b)
            if live and t.attr == "shape":
                live = frozenset(x for x in live if x[1] == "same")
            if live:
                self.mutate(live, node, "has its attribute %s set" % t.attr)

    def keep(self, attr, v):
        """self.attr now has these objects in it"""
        self.s.attr_holds.setdefault(attr, set()).update((p, k) for p, k, h in v if h == 1 and not p.startswith("self."))

    def unpack(self, v):
        return self.elem(v)

    # -- statements -------------------------------------------------------------
    def scan(self, e):
        """calls nested in an expression whose value is not followed"""
        if e is None:
            return
        for n in ast.iter_child_nodes(e):
            if isinstance(n, (ast.Lambda,)):
                continue
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                self.comp(n)
                continue
            if isinstance(n, ast.Call):
                self.call(n)
            self.scan(n)

    def comp(self, n):
        saved = dict(self.env)
        for g in n.generators:
            it = self.al(g.iter)
            self.scan(g.iter)
            self.store(g.target, self.unpack(it) if it else frozenset(), n)
            for c in g.ifs:
                self.expr(c)
        for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
            self.expr(x)
        self.env = saved

    def expr(self, e):
        if e is None:
            return frozenset()
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            self.comp(e)
            return frozenset()
        v = self.al(e)
        self.scan(e)
        return v

    def block(self, body):
        for s in body:
            if self.dead:
                return
            self.stmt(s)

    def join(self, a, b):
        out = dict(a)
        for k, v in b.items():
            if k.startswith("self.") and k not in a:
                v = v | frozenset([(k, "same", 0)])
            out[k] = out.get(k, frozenset()) | v
        for k in a:
            if k.startswith("self.") and k not in b:
                out[k] = out[k] | frozenset([(k, "same", 0)])
        return out

    def branch(self, bodies):
        base = dict(self.env)
        outs = []
        for b in bodies:
            self.env, self.dead = dict(base), False
            self.block(b)
            if not self.dead:
                outs.append(self.env)
        self.dead = not outs
        if outs:
            r = outs[0]
            for o in outs[1:]:
                r = self.join(r, o)
            self.env = r
        else:
            self.env = base

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.expr(s.value)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    for x, y in zip(t.elts, [self.al(y) for y in s.value.elts]):
                        self.store(x, y, s)
                else:
                    self.store(t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.expr(s.value), s)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value)
            if isinstance(s.target, ast.Name):
                o = self.env.get(s.target.id, frozenset())
                if o:
                    self.mutate(o, s, "is changed in place (%s)" % ast.unparse(s)[:40], weak=True)
            elif isinstance(s.target, ast.Attribute) and self.method and isinstance(s.target.value, ast.Name) and s.target.value.id == "self":
                o = self.al(s.target)
                self.mutate(o, s, "is changed in place (%s)" % ast.unparse(s)[:40], weak=True)
            else:
                self.store(s.target, frozenset(), s)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.store(t, frozenset(), s)
                elif isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
        elif isinstance(s, ast.Expr):
            self.expr(s.value)
        elif isinstance(s, ast.Return):
            v = self.expr(s.value)
            self.ret |= set(v)
            self.dead = True
        elif isinstance(s, ast.Raise):
            self.expr(s.exc)
            self.dead = True
        elif isinstance(s, (ast.Break, ast.Continue)):
            self.jumps.append(dict(self.env))
            self.dead = True
        elif isinstance(s, ast.If):
            self.expr(s.test)
            t, pos = norm_test(s.test)
            if t in self.facts:
                self.block(s.body if self.facts[t] == pos else s.orelse)
            else:
                self.branch([s.body, s.orelse])
        elif isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            saved = getattr(self, "jumps", [])
            it = self.expr(s.iter) if not isinstance(s, ast.While) else frozenset()
            for rnd in range(3):
                self.jumps = []
                if isinstance(s, ast.While):
                    self.expr(s.test)
                base = dict(self.env)
                if not isinstance(s, ast.While):
                    self.store(s.target, self.unpack(it), s)
                self.block(s.body)
                outs = ([] if self.dead else [self.env]) + self.jumps
                self.dead = False
                r = base
                for o in outs:
                    r = self.join(r, o)
                if r == base and rnd:
                    break
                self.env = r
            self.jumps = saved
            self.block(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.expr(i.context_expr)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, v, s)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            base = dict(self.env)
            self.block(s.body)
            self.block(s.orelse)
            after, dead = self.env, self.dead
            outs = [] if dead else [after]
            for h in s.handlers:
                self.env, self.dead = self.join(base, after), False
                self.block(h.body)
                if not self.dead:
                    outs.append(self.env)
            self.dead = not outs
            if outs:
                r = outs[0]
                for o in outs[1:]:
                    r = self.join(r, o)
                self.env = r
            d = self.dead
            self.dead = False
            self.block(s.finalbody)
            self.dead = d or self.dead
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            self.env.pop(s.name, None)
        elif isinstance(s, ast.Match):
            self.expr(s.subject)
            self.branch([c.body for c in s.cases] + [[]])
        elif isinstance(s, ast.Assert):
            self.expr(s.test)

    def run(self):
        """once per combination of the repeated tests on names nothing rebinds"""
        tests = repeated_tests(self.f.node)
        env0 = dict(self.env)
        for n in range(1 << len(tests)):
            self.facts = {t: bool(n >> i & 1) for i, t in enumerate(tests)}
            self.env, self.dead, self.jumps = dict(env0), False, []
            self.block(self.f.node.body)
        self.s.ret = frozenset(x for x in self.ret if not x[0].startswith("self."))
        return self.s


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}
        self.stack = set()
        self.calls = 0
        self.arrays = {"@%s.%s" % (m.name, n) for m in prog.modules.values() for n, vs in m.assigns.items()
                       if not all(isinstance(v, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp)) for _, v, _ in vs)}

    def summary(self, f):
        k = f.name
        if k in self.cache:
            return self.cache[k]
        if k in self.stack:
            return Summary()
        self.stack.add(k)
        r = Flow(self, f).run()
        self.stack.discard(k)
        self.cache[k] = r
        return r

    def target(self, f, call):
        d = dotted_name(call.func)
        if not d:
            return None
        parts = d.split(".")
        if parts[0] == "self" and f.cls is not None and len(parts) == 2:
            m = self.prog.method(f.cls, parts[1])
            if m is not None:
                self.calls += 1
                return m, True
            return None
        try:
            r = self.prog.member(f.mod, parts)
        except Exception:
            return None
        if r is None:
            return None
        if r[0] == "func":
            self.calls += 1
            return r[1], False
        if r[0] == "cls":
            m = self.prog.method(r[1], "__init__")
            if m is not None:
                self.calls += 1
                return m, True
        return None


# -- the two properties -----------------------------------------------------------
EXEMPT = {
    # documented to work on the object they are given
    ("skbeam.core.correlation:lazy_one_time", "internal_state"),
    ("skbeam.core.correlation:lazy_two_time", "two_time_internal_state"),
    ("skbeam.core.correlation:two_time_state_to_results", "state"),
    ("skbeam.core.dpc:lazy_dpc", "dpc_state"),
    ("skbeam.core.fitting.xrf_model:update_parameter_dict", "param"),
    ("skbeam.core.fitting.xrf_model:set_parameter_bound", "param"),
    ("skbeam.core.utils:MD_dict.__init__", "md_dict"),
}
HANDED = {"skbeam.core.fitting.base.parameter_data:get_para"}  # its documentation tells the caller to copy
REGISTER = {("skbeam.core.fitting.xrf_model:register_strategy", "@skbeam.core.fitting.xrf_model._STRATEGY_REGISTRY")}
API = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "api.txt")


def functions(prog):
    for mn, m in sorted(prog.modules.items()):
        if ".tests" in mn or mn.endswith("_version") or not mn.startswith("skbeam"):
            continue
        for f in m.funcs.values():
            yield f
        for c in m.classes.values():
            for d in (c.methods, c.getters, c.setters):
                yield from d.values()


def api():
    return set(open(API).read().split())


def where(f, node):
    return "%s:%d" % (f.mod.rel, getattr(node, "lineno", 0))


def chain(mu):
    out = []
    while mu.via:
        mu = mu.via[0]
        out.append("line %d: %s" % (getattr(mu.node, "lineno", 0), mu.what))
    return "\n".join(out)


def is_array(f, p, mu, doc):
    """is this parameter (or its element) an array, so that an augmented
    assignment writes to it?  True / False / None"""
    if getattr(mu, "kind", "same") == "elem":
        if getattr(mu, "seen", False) or re.search(r"(iterable|list|sequence|tuple|stack).*(array|image|frame)|images|frames", doc, re.I):
            return True
        return None
    if p in array_names(f.node) or getattr(mu, "seen", False):
        return True
    if SCA.search(doc):
        return False
    if re.search(r"ndarray|array|list\b|image", doc, re.I):
        return True
    return None


def analyse_args(prog, rep, tier, seed):
    an = Analysis(prog)
    roots = api()
    rep.rules.append("alias-flow: no path of assignments, views, calls and attributes leads from a public function's argument to a write")
    for f in functions(prog):
        s = an.summary(f)
        rep.count("functions analysed")
        rep.count("parameters followed", len(f.node.args.args) + len(f.node.args.kwonlyargs))
        if f.name not in roots:
            continue
        rep.count("public functions decided")
        docs = doc_types(f.node)
        if f.qual.endswith(".__init__") and f.cls is not None:
            docs = dict(doc_types_of(f.cls.node), **docs)
        for (p, kd), mu in s.mut.items():
            if p[0] == "@" or (f.name, p) in EXEMPT:
                continue
            rep.findings.append(Finding("caller-data", "%s(%s)" % (f.name, p), where(f, mu.node), "the caller's argument '%s' %s" % (p, mu.what), chain(mu)))
        hard = {p for p, _ in s.mut}
        for (p, kd), mu in s.weak.items():
            if p in hard or (f.name, p) in EXEMPT:
                continue
            v = is_array(f, p, mu, docs.get(p, ""))
            if v:
                rep.findings.append(Finding("caller-data", "%s(%s)" % (f.name, p), where(f, mu.node),
                                            "the caller's array '%s' %s" % (p, mu.what), chain(mu)))
            elif v is None:
                rep.undecided.append("%s(%s): %s, if it is an array" % (f.name, p, mu.what))
        for p, mu in s.maybe.items():
            if p[0] != "@" and p not in hard and (f.name, p) not in EXEMPT:
                rep.undecided.append("%s(%s): %s, if the index does not copy" % (f.name, p, mu.what))
        if f.cls is None:
            continue
        for (a, kd), mu in s.attr_mut.items():
            for g in list(f.cls.methods.values()) + list(f.cls.setters.values()):
                for p in aliases(an.summary(g), a, kd):
                    if p[0] == "@" or (g.name, p) in EXEMPT or g.name not in roots:
                        continue
                    if isinstance(mu.node, ast.AugAssign) and isinstance(mu.node.target, ast.Attribute):
                        d = dict(doc_types_of(f.cls.node), **doc_types(g.node)).get(p, "")
                        if not (ARR.search(d) and not SCA.search(d)):
                            rep.undecided.append("%s: self.%s %s" % (f.name, a, mu.what))
                            continue
                    rep.findings.append(Finding("caller-data", "%s(self.%s)" % (f.name, a), where(f, mu.node),
                                                "self.%s, which %s was given as '%s', %s" % (a, g.qual, p, mu.what), chain(mu)))


def aliases(s, attr, kind):
    """the parameters and tables a write to self.attr (or to an element of it) reaches"""
    out = {p for p, k, h in s.attr_from.get(attr, ()) if k != "maybe"}
    if kind == "elem":
        out |= {p for p, k in s.attr_holds.get(attr, ()) if k != "maybe"}
    return out


def doc_types_of(cls):
    return doc_types(cls)


def analyse_shared(prog, rep, tier, seed):
    an = Analysis(prog)
    roots = api()
    rep.rules.append("alias-flow: no function writes to a module-level table or a mutable default, and no public function hands one out")
    tables = set()
    for m in prog.modules.values():
        if m.name.startswith("skbeam") and ".tests" not in m.name and not m.name.endswith("_version"):
            for n, vs in m.assigns.items():
                if all(mutable(v) for _, v, _ in vs):
                    tables.add("@%s.%s" % (m.name, n))
    rep.count("module-level tables", len(tables))
    for f in functions(prog):
        s = an.summary(f)
        rep.count("functions analysed")
        for (p, kd), mu in s.mut.items():
            if p[0] == "@" and (f.name, p) not in REGISTER and p in tables and not mu.via:
                rep.findings.append(Finding("shared-table", "%s(%s)" % (f.name, p[1:]), where(f, mu.node),
                                            "the module-level table %s %s" % (p[1:], mu.what), chain(mu)))
        a = f.node.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for x, d in pairs:
            rep.count("defaults")
            if mutable(d) and (x.arg, "same") in s.mut:
                mu = s.mut[x.arg, "same"]
                rep.findings.append(Finding("shared-default", "%s(%s)" % (f.name, x.arg), where(f, mu.node),
                                            "the default of '%s', one object for all calls, %s" % (x.arg, mu.what), chain(mu)))
        for n in ast.walk(f.node):
            if isinstance(n, ast.Global):
                rep.undecided.append("%s rebinds %s" % (f.name, ", ".join(n.names)))
        if f.name in roots and f.name not in HANDED:
            for p, k, h in s.ret:
                if p in tables and k == "same" and h == 0:
                    rep.findings.append(Finding("shared-result", "%s(%s)" % (f.name, p[1:]), where(f, f.node),
                                                "returns the module-level table %s itself: a caller that changes the result changes it for everyone" % p[1:]))
        if f.cls is None:
            continue
        for (at, kd), mu in s.attr_mut.items():
            own = False
            for g in list(f.cls.methods.values()) + list(f.cls.setters.values()):
                own |= at in an.summary(g).attr_from
                for p in aliases(an.summary(g), at, kd):
                    if p in tables:
                        rep.findings.append(Finding("shared-table", "%s(%s)" % (f.name, p[1:]), where(f, mu.node),
                                                    "self.%s is the module-level table %s and %s" % (at, p[1:], mu.what), chain(mu)))
            c = f.cls.attrs.get(at)
            if not own and c is not None and mutable(c):
                rep.findings.append(Finding("shared-class", "%s(%s)" % (f.name, at), where(f, mu.node),
                                            "the class attribute %s, shared by all instances, %s" % (at, mu.what), chain(mu)))
