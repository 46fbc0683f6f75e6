"""Random interpretation of value graphs (Gulwani & Necula, POPL'03/'04).

Two terms are compared by evaluating the *terms* (never the program) at random
valuations of their leaves, in exact rational arithmetic; uninterpreted
operators are keyed hash functions of their argument values.  Agreement on all
valuations means equal up to a negligible error probability; a disagreement is
reported as a difference only when `blame` can localise it to an interpreted
construct or to the arguments of a common uninterpreted operator.  Everything
else is 'unknown'.
"""
from __future__ import annotations

import builtins
import hashlib
import random
from fractions import Fraction

from . import terms as tm
from .terms import T


ELEMENTWISE = {"add", "mul", "pow", "np.sin", "np.cos", "np.tan", "np.arcsin", "np.arccos", "np.arctan", "np.exp", "np.log",
               "np.log10", "np.abs", "np.sqrt", "np.deg2rad", "np.rad2deg", "float", "np.asarray", "np.array", "astype"}


def operands(t):
    """what an element-wise expression takes its elements from"""
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "astype":
            stack.append(x.args[0])
        elif x.op in ELEMENTWISE:
            stack.extend(y for y in x.args if isinstance(y, T) and y.op != "kv")
        elif x.op not in ("const", "sym"):
            out.add(x)
    return out


class Skip(Exception):
    """valuation outside the domain of one of the terms"""


class Err(Skip):
    """the value cannot be computed: None where a number is needed"""


def h64(*parts):
    m = hashlib.blake2b(digest_size=8)
    for p in parts:
        m.update(repr(p).encode())
        m.update(b"\0")
    return int.from_bytes(m.digest(), "big")


INT_OPS = {"len", "rangelen", "ziplen", "np.argmax", "np.argmin", "np.ndim", "ndcount", "np.searchsorted",
           "np.bincount"}
BOOL_OPAQUE = {"isinstance", "in", "np.isnan", "np.isinf", "np.isfinite", "np.any", "np.all", "callable", "hasattr",
               "raises", "exists", "np.allclose", "np.array_equal", "s.startswith", "s.endswith", "m.startswith",
               "np.iscomplexobj", "truthy", "np.isscalar"}
ODD = {"np.sin", "np.tan", "np.arctan", "np.arcsin", "np.sinh", "np.tanh"}
# as often negative as not
SIGNED = {"np.log", "np.log10", "np.log2", "np.log1p", "np.expm1", "np.arctan2", "np.diff", "np.gradient", "np.fmod"}
EVEN = {"np.cos", "np.cosh"}
# operations that only rearrange elements, and linear ones (homomorphic interpretation)
SHAPELY = {"np.ravel", "np.reshape", "m.reshape", "m.flatten", "m.ravel", "np.squeeze", "np.transpose", "np.atleast_1d", "np.atleast_2d",
           "np.copy", "m.copy", "astype", "np.float64", "np.expand_dims", "np.flipud", "np.fliplr"}
LINEAR = {"np.sum", "np.nansum", "np.mean", "np.nanmean", "np.average", "np.cumsum", "np.diff", "np.fft.fft", "np.fft.ifft", "np.fft.fft2",
          "np.fft.ifft2", "np.fft.fftn", "np.fft.ifftn", "np.fft.fftshift", "np.fft.ifftshift", "np.roll", "np.tile", "np.repeat",
          "np.trace", "np.diag", "np.tril", "np.triu", "bigsum_", "np.trapz", "np.deg2rad", "np.rad2deg"}
BILINEAR = {"np.dot", "np.matmul", "np.outer", "np.convolve", "scipy.signal.fftconvolve", "scipy.signal.convolve", "np.multiply"}
IDENT_OPS = {"float", "np.array", "np.asarray", "tolist", "view_"}


_levels = {}


def levels(t):
    """bound-variable levels occurring in t"""
    r = _levels.get(t)
    if r is None:
        if t.op == "bv":
            r = frozenset([t.args[0]])
        else:
            r = frozenset()
            for a in t.args:
                if isinstance(a, T) and tm.bvh(a):
                    x = levels(a)
                    r = r | x if r else x
        _levels[t] = r
    return r


def bound_value(like, colour, seed):
    """a random value for a carried variable, of the kind of its initial value"""
    x = h64("bound", seed, colour)
    if isinstance(like, bool):
        return bool(x & 1)
    if isinstance(like, str):
        return like
    if isinstance(like, Fraction) and like.denominator == 1 and abs(like) < 1000:
        return Fraction(x % 11)
    if x % 6 == 0:
        return Fraction((x // 6) % 9 - 2)
    return Fraction((x // 6) % 4001 - 1400, 128)


class Filled(Fraction):
    """the value of an array whose elements are all known"""
    __slots__ = ("default",)

    @staticmethod
    def mk(v, d):
        r = Filled(v)
        r.default = Fraction(d)
        return r


FILLED = {"np.zeros": 0, "np.zeros_like": 0, "np.ones": 1, "np.ones_like": 1}


class Valuation:
    poles = False   # give 1/0 a value of its own

    def __init__(self, seed, doms=None, pools=None, parent=None, env=None, unroll=False, coarse=0, hom=False):
        self.unroll = unroll
        # hom: indexing is transparent and linear operations are linear, so
        # that the usual algebraic rearrangements keep the value
        self.hom = hom
        # coarse > 0: leaves and opaque values come from a tiny set, so that
        # ties and coincidences happen; `fine` then identifies terms
        self.coarse = coarse
        # half of these valuations avoid zero, lest every division fails
        # salt: other values for the opaque operations, the same inputs
        self.salt = 0 if parent is None else parent.salt
        self.lift = parent.lift if parent is not None else int(bool(coarse) and h64("lift", seed) % 2)
        self.twin = None
        self.seed = seed
        self.doms = doms or {}
        self.pools = pools or {}
        self.memo = {}
        self.parent = parent
        self.env = env or {}
        self.lv = frozenset(k.args[0] for k in self.env)
        self.nest = 0 if parent is None else parent.nest + 1
        self.alias = {} if parent is None else parent.alias
        self.preset = {} if parent is None else parent.preset
        self.lx = [None] if parent is None else parent.lx
        self.free_sides = False if parent is None else parent.free_sides

    @property
    def lastx(self):
        return self.lx[0]

    @lastx.setter
    def lastx(self, v):
        self.lx[0] = v

    def forget(self):
        v = self
        while v is not None:
            v.memo.clear()
            v = v.parent

    def force(self, t, u):
        """choose this interpretation so that the opaque value t equals u"""
        try:
            v = self.ev(u)
            self.forget()
            self.lastx = None
            self.ev(t)
        except Skip:
            return
        if self.lastx is not None:
            self.alias[self.lastx] = v
        self.forget()

    def want(self, c, truth, rng):
        """choose this interpretation so that c has this truth value, as far as
        that can be chosen freely"""
        if c.op == "not":
            return self.want(c.args[0], not truth, rng)
        if c.op in ("and", "or"):
            if (c.op == "and") == truth:
                for x in c.args:
                    self.want(x, truth, rng)
            elif not any(self.known(x) is truth for x in c.args):
                self.want(c.args[rng.randrange(len(c.args))], truth, rng)
            return
        if tm.bvh(c) and self.parent is None:
            return
        if c.op == "ne":
            c, truth = tm.raw("eq", *c.args), not truth
        if c.op in ("lt", "le"):
            return self.want_order(c, truth, rng)
        if c.op == "eq":
            sides = [(c.args[0], c.args[1]), (c.args[1], c.args[0])]
            if self.free_sides:
                rng.shuffle(sides)
            for x, y in sides:
                if x.op == "var" and y.op == "const":
                    if truth:
                        self.preset[x] = self.ev(y)
                    elif self.ev(x) == self.ev(y):
                        self.preset[x] = "<other>" if y.args[0] == "str" else Fraction(rng.randrange(100, 200), 7)
                    self.forget()
                    return
                if truth and x.op == "ite" and y.op != "ite":
                    b = self.known(x.args[0])
                    if b is not None:
                        return self.want(tm.raw("eq", x.args[1] if b else x.args[2], y), truth, rng)
                if self.parent is not None and x.op == "ite" and y.op == "const":
                    for b, z in ((True, x.args[1]), (False, x.args[2])):
                        try:
                            if (self.ev(z) == self.ev(y)) is truth:
                                return self.want(x.args[0], b, rng)
                        except Skip:
                            pass
                if truth and x.op in ("len", "select") and self.ev(x) != self.ev(y):
                    self.force(x, y)
                    return
        elif c.op == "is" and c.args[0].op == "var" and c.args[1] is tm.NONE:
            if truth:
                self.preset[c.args[0]] = None
            elif self.ev(c.args[0]) is None:
                self.preset[c.args[0]] = Fraction(rng.randrange(-50, 90), 3)
            self.forget()
            return
        if c.op in BOOL_OPAQUE or c.op == "raises" or c.op in ("eq", "select"):
            self.forget()
            self.lastx = None
            try:
                v = self.ev(c)
            except Skip:
                return
            if isinstance(v, bool) and v is not truth and self.lastx is not None and c.op != "eq":
                self.alias[self.lastx] = truth
            self.forget()

    def want_value(self, t, v):
        self.forget()
        if t.op == "var" and not (t in self.doms or t.args[0] in self.doms):
            self.preset[t] = v
        else:
            self.lastx = None
            self.ev(t)
            if self.lastx is not None:
                self.alias[self.lastx] = v
        self.forget()

    def solve(self, t, v, depth=0):
        """choose an input so that t is worth v"""
        while t.op in ("float", "np.asarray", "np.array", "astype") and isinstance(t.args[0], T):
            t = t.args[0]
        if t.op == "int" and depth < 3:
            return self.solve(t.args[0], Fraction(-(-v.numerator // v.denominator)), depth + 1)
        if t.op == "var":
            if t in self.doms or t.args[0] in self.doms or self.pools.get(t):
                return False
            self.preset[t] = v
        elif t.op in ("add", "mul") and depth < 3:
            for x in sorted(t.args, key=lambda x: (x.op != "var", x.op != "select")):
                if not isinstance(x, T) or x.op == "const":
                    continue
                try:
                    rest = [self.num(y) for y in t.args if y is not x]
                    if t.op == "add":
                        w = v - sum(rest)
                    else:
                        w = v
                        for r in rest:
                            w = w / r
                except (Skip, ZeroDivisionError):
                    continue
                if self.solve(x, w, depth + 1):
                    return True
            return False
        elif t.op == "select":
            self.forget()
            self.lastx = None
            try:
                self.ev(t)
            except Skip:
                return False
            if self.lastx is None:
                return False
            self.alias[self.lastx] = v
        else:
            return False
        self.forget()
        return True

    def touch(self, c):
        """choose inputs so that both sides of a comparison are the same"""
        for x, y in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
            try:
                v = self.num(y)
            except Skip:
                return
            if inside(x, y) or inside(y, x):
                continue
            if self.solve(x, v):
                return

    def want_order(self, c, truth, rng):
        try:
            if self.boolean(c) is truth:
                return
            a, b = self.ev(c.args[0]), self.ev(c.args[1])
        except Skip:
            return
        if not (isinstance(a, Fraction) and isinstance(b, Fraction)) or isinstance(a, bool) or isinstance(b, bool):
            return
        # a must become smaller than b (truth) or larger
        d = Fraction(rng.choice((1, 3, 40)), rng.choice((2, 64, 512)))
        sides = [(c.args[0], b - d if truth else b + d), (c.args[1], a + d if truth else a - d)]
        rng.shuffle(sides)
        for t, v in sides:
            if self.solve(t, v):
                return

    def known(self, c):
        try:
            return self.boolean(c)
        except Skip:
            return None

    def bind(self, env):
        v = Valuation(self.seed, self.doms, self.pools, self, env, self.unroll, self.coarse, self.hom)
        v.poles = self.poles
        return v

    @property
    def fine(self):
        if not self.coarse:
            return self
        if self.twin is None:
            self.twin = Valuation(self.seed, self.doms, self.pools, self.parent.fine if self.parent else None,
                                  self.env, self.unroll, 0, self.hom)
        return self.twin

    # -- structured values (unrolling interpretation) -------------------------
    def run_loop(self, t):
        """carried values after the loop, by bounded unrolling"""
        cnt, inits, upds, stop, h = self.loop_parts(t)
        vals = [self.tryev(x) for x in inits]
        n = 12
        if cnt is not None:
            c = self.ev(cnt)
            if not isinstance(c, Fraction) or c > 10:
                raise Skip()
            n = max(0, -(-c.numerator // c.denominator))
        done = cnt is not None
        for r in range(n):
            env = {tm.raw("bv", h, 0): Fraction(r)}
            for k, v in enumerate(vals):
                env[tm.raw("bv", h, k + 1)] = v
            ch = self.bind(env)
            new = [ch.tryev(u) for u in upds]
            st = ch.boolean(stop)
            vals = new
            if st:
                done = True
                break
        if not done:
            raise Skip()
        return vals

    def usel(self, b, i):
        if isinstance(b, Filled) and self.scalarkey(i) and not isinstance(i, (str, bool)) and not (isinstance(i, tuple) and i[0] == "field"):
            return Filled.mk(b.default, b.default)
        if isinstance(b, tuple) and b:
            k = b[0]
            if k in ("list", "tuple"):
                if isinstance(i, Fraction) and i.denominator == 1 and -(len(b) - 1) <= i < len(b) - 1:
                    return b[1:][int(i)]
                if isinstance(i, tuple) and len(i) > 2 and i[0] == "tuple" and isinstance(i[1], Fraction) and i[1].denominator == 1 \
                        and -(len(b) - 1) <= i[1] < len(b) - 1:
                    return self.usel(b[1:][int(i[1])], i[2] if len(i) == 3 else ("tuple",) + i[2:])
                if isinstance(i, tuple) and len(i) == 4 and i[0] == "slice" and all(
                        x is None or isinstance(x, Fraction) and x.denominator == 1 for x in i[1:]):
                    return (k,) + b[1:][slice(*[None if x is None else int(x) for x in i[1:]])]
            elif k in ("dict", "nt", "obj"):
                for x in b[1:]:
                    if isinstance(x, tuple) and len(x) == 3 and x[0] == "kv" and x[1] == i:
                        return x[2]
            elif k == "st":
                if self.scalarkey(i):
                    for kk, v in b[2]:
                        if kk == i:
                            return v
                    if all(self.samearity(kk, i) for kk, v in b[2]):
                        return self.usel(b[1], i)
        return self.opaque("select", (b, i))

    @staticmethod
    def scalarkey(i):
        if isinstance(i, (Fraction, str, bool)):
            return True
        if isinstance(i, tuple) and i:
            if i[0] == "field":
                return True
            if i[0] == "tuple":
                return all(isinstance(x, (Fraction, str)) for x in i[1:])
        return False

    @staticmethod
    def samearity(a, b):
        def ar(x):
            if isinstance(x, tuple):
                return (x[0], len(x))
            return (type(x).__name__,)
        if isinstance(a, tuple) and a[0] == "field" or isinstance(b, tuple) and b[0] == "field":
            return True
        return ar(a) == ar(b)

    def ustore(self, b, i, v):
        if isinstance(b, tuple) and b:
            if b[0] == "list" and isinstance(i, Fraction) and i.denominator == 1 and -(len(b) - 1) <= i < len(b) - 1:
                l = list(b[1:])
                l[int(i)] = v
                return ("list",) + tuple(l)
            if b[0] == "dict" and self.scalarkey(i):
                out = [x for x in b[1:] if x[1] != i] + [("kv", i, v)]
                return ("dict",) + tuple(sorted(out, key=repr))
            if b[0] in ("nt", "obj") and self.scalarkey(i):
                out = [x for x in b[1:] if not (isinstance(x, tuple) and len(x) == 3 and x[1] == i)] + [("kv", i, v)]
                return (b[0],) + tuple(sorted(out, key=repr))
            if b[0] == "st" and self.scalarkey(i) and all(self.samearity(kk, i) for kk, _ in b[2]):
                out = [x for x in b[2] if x[0] != i]
                if not self.idle(b[1], i, v):
                    out.append((i, v))
                if not out:
                    return b[1]
                return ("st", b[1], tuple(sorted(out, key=repr)))
        if self.scalarkey(i):
            if self.idle(b, i, v):
                return b
            return ("st", b, ((i, v),))
        return self.opaque("store", (b, i, v))

    def idle(self, b, i, v):
        """the store leaves the array as it was"""
        return isinstance(i, Fraction) and isinstance(v, Fraction) and self.usel(b, i) == v

    def uev(self, t):
        """unrolling interpretation of structured operators; NotImplemented otherwise"""
        op, a = t.op, t.args
        if op in ("fix", "wfix"):
            return self.run_loop(t)[0]
        if op in FILLED:
            v = self.opaque(op, tuple(self.ev(x) if isinstance(x, T) else x for x in a))
            return Filled.mk(v, FILLED[op]) if isinstance(v, Fraction) else v
        if op == "listcomp":
            c = self.ev(a[0])
            if not isinstance(c, Fraction) or c > 10:
                raise Skip()
            out = []
            for r in range(max(0, -(-c.numerator // c.denominator))):
                ch = self.bind({tm.raw("bv", int(a[3].args[1]), 0): Fraction(r)})
                if ch.boolean(a[2]):
                    out.append(ch.tryev(a[1]))
            return ("list",) + tuple(out)
        if op == "dictcomp":
            v = self.ev(a[0])
            if isinstance(v, tuple) and v and v[0] == "list" and all(
                    isinstance(x, tuple) and len(x) == 3 and x[0] == "tuple" for x in v[1:]):
                d = {}
                for x in v[1:]:
                    d[repr(x[1])] = ("kv", x[1], x[2])
                return ("dict",) + tuple(sorted(d.values(), key=repr))
            return self.opaque(op, (v,))
        if op == "select":
            return self.usel(self.ev(a[0]), self.ev(a[1]))
        if op == "store":
            return self.ustore(self.ev(a[0]), self.ev(a[1]), self.ev(a[2]))
        if op in ("nt", "obj"):
            return (op,) + tuple(sorted((self.ev(x) if isinstance(x, T) else x for x in a), key=repr))
        if op == "append":
            b, x = self.ev(a[0]), self.ev(a[1])
            if isinstance(b, tuple) and b and b[0] == "list":
                return b + (x,)
            return self.opaque(op, (b, x))
        if op == "concat":
            vs = [self.ev(x) for x in a]
            if all(isinstance(v, tuple) and v and v[0] == vs[0][0] and v[0] in ("list", "tuple") for v in vs):
                return (vs[0][0],) + tuple(y for v in vs for y in v[1:])
            if all(isinstance(v, str) for v in vs):
                return "".join(vs)
            return self.opaque(op, tuple(vs))
        if op == "len":
            v = self.ev(a[0])
            while isinstance(v, tuple) and v and v[0] == "st":
                v = v[1]
            if isinstance(v, tuple) and v and v[0] in ("list", "tuple", "dict"):
                return Fraction(len(v) - 1)
            x = h64("len", self.seed, v)
            self.lastx = x
            if x in self.alias:
                return self.alias[x]
            return Fraction(1 + x % 4)
        if op == "ziplen":
            return min(self.num(x) for x in a)
        if op == "rangelen":
            lo, hi, st = (self.num(x) for x in a)
            if st == 0 or any(x.denominator != 1 for x in (lo, hi, st)):
                raise Skip()
            return Fraction(len(range(int(lo), int(hi), int(st))))
        return NotImplemented

    def homev(self, t):
        op, a = t.op, t.args
        if op == "select" and a[1].op != "field":
            if nonscalar(a[1]) or a[0].op in ("add", "mul", "pow", "np.exp", "np.log", "np.sqrt"):
                return self.ev(a[0])
        elif op == "select" and a[1].args[0] in ("T", "real", "flat"):
            return self.ev(a[0])
        elif op in SHAPELY:
            return self.ev(a[0])
        elif op in LINEAR or op in BILINEAR:
            n = 2 if op in BILINEAR else 1
            if len(a) < n:
                return NotImplemented
            k = self.opaque(op, tuple(self.ev(x) if isinstance(x, T) else x for x in a[n:]))
            if not isinstance(k, Fraction):
                return NotImplemented
            k = k + 17
            for x in a[:n]:
                k *= self.num(x)
            return k
        return NotImplemented

    # -- binders ------------------------------------------------------------
    def index_env(self, h):
        return {tm.raw("bv", h, 0): Fraction(h64("idx", self.seed, self.nest) % 11)}

    def tryev(self, t):
        try:
            return self.ev(t)
        except Skip:
            return ("skip",)

    def loop_parts(self, t):
        if t.op == "fix":
            return t.args[0], t.args[1].args, t.args[2].args[:-1], t.args[2].args[-1], int(t.args[3].args[1])
        return None, t.args[0].args, t.args[1].args[:-1], t.args[1].args[-1], int(t.args[2].args[1])

    def loop_colours(self, t):
        """order-independent fingerprints of the carried variables of a loop"""
        cnt, inits, upds, stop, h = self.loop_parts(t)
        likes = [self.tryev(x) for x in inits]
        cols = [h64("c0", repr(v)) for v in likes]
        trace = []
        rounds = 3 if self.nest == 0 else 2
        for r in range(rounds):
            env = {tm.raw("bv", h, 0): Fraction(h64("it", self.seed, self.nest, r) % 11)}
            for k, c in enumerate(cols):
                env[tm.raw("bv", h, k + 1)] = bound_value(likes[k], c, self.seed)
            ch = self.bind(env)
            vals = [ch.tryev(u) for u in upds]
            trace.append(ch.tryev(stop))
            cols = [h64("c", c, repr(v)) for c, v in zip(cols, vals)]
        return cols, trace, likes

    def loop_value(self, t):
        cols, trace, likes = self.loop_colours(t)
        cnt = self.ev(t.args[0]) if t.op == "fix" else None
        return self.opaque(t.op, (cnt, cols[0], tuple(sorted(cols)), tuple(trace)))

    # -- leaves -------------------------------------------------------------
    def leaf(self, t):
        if t in self.preset:
            return self.preset[t]
        x = h64("leaf", self.seed, tm.skey(t))
        name = t.args[0] if t.op == "var" else None
        dom = self.doms.get(t) or self.doms.get(name)
        if dom == "int":
            return Fraction(x % 12)
        if dom == "posint":
            return Fraction(1 + x % 9)
        if isinstance(dom, (list, tuple)):
            d = dom[x % len(dom)]
            return Fraction(d) if isinstance(d, int) and not isinstance(d, bool) else d
        if dom == "small":
            return Fraction(1 + x % 3)
        if dom == "even":
            return Fraction(2 * (1 + x % 6))
        if dom == "pos":
            return Fraction(1 + x % 997, 64)
        if dom == "nonneg":
            return Fraction(x % 997, 64)
        if dom == "bool":
            return bool(x & 1)
        pool = self.pools.get(t)
        if pool:
            strs = pool.get("str") or ()
            nums = pool.get("num") or ()
            y = h64("pool", x)
            if pool.get("none") and y % 3 == 0:
                return None
            y //= 3
            if strs and (y % 5 < 4 or not nums and not pool.get("int")):
                opts = sorted(strs) + ["<other>"]
                return opts[(y // 7) % len(opts)]
            if nums and y % 3 < 2:
                ns = sorted(nums)
                b = ns[(y // 11) % len(ns)]
                d = [Fraction(0), Fraction(1), Fraction(-1), Fraction(1, 2), Fraction(-1, 2)][(y // 101) % 5]
                return b + d
            if pool.get("int"):
                return Fraction((y // 5) % 13)
            if pool.get("bool") and y % 2:
                return bool(y & 4)
        if self.coarse:
            return Fraction((x // 5) % (self.coarse + 1) + self.lift)
        if x % 5 == 0:
            return Fraction((x // 5) % 9 - 2)
        return Fraction((x // 5) % 4001 - 1400, 128)

    def opaque(self, op, vals):
        if self.unroll and any(isinstance(v, tuple) and has_skip(v) for v in vals):
            raise Skip()
        if op in ODD and len(vals) == 1 and isinstance(vals[0], Fraction) and vals[0] <= 0:
            if vals[0] == 0:
                return Fraction(0)
            r = self.opaque(op, (-vals[0],))
            return -r if isinstance(r, Fraction) else r
        if op in EVEN and len(vals) == 1 and isinstance(vals[0], Fraction) and vals[0] <= 0:
            if vals[0] == 0:
                return Fraction(1)
            return self.opaque(op, (-vals[0],))
        x = h64("op", self.seed, op, vals) if not self.salt else h64("op", self.seed, self.salt, op, vals)
        self.lastx = x
        if self.alias and x in self.alias:
            return self.alias[x]
        if op in BOOL_OPAQUE:
            return bool(x & 1)
        pool = self.pools.get(("select", repr(vals[1])) if op == "select" and len(vals) == 2 else op)
        if pool:
            y = h64("opool", x)
            strs, nums = pool["str"], pool["num"]
            if strs and y % 5 < (3 if op == "select" else 4):
                opts = sorted(strs) + ["<other>"]
                return opts[(y // 7) % len(opts)]
            if nums and y % 5 < 3:
                ns = sorted(nums)
                b = ns[(y // 11) % len(ns)]
                if (y // 101) % 2:
                    return b
                return b + [Fraction(1), Fraction(-1)][(y // 211) % 2]
        if op in SIGNED and (x >> 33) & 1:
            return -Fraction(1 + (x // 7) % 3) if self.coarse else -Fraction((x // 7) % 7919, 911)
        if self.coarse:
            return Fraction(x % self.coarse + (1 if op in INT_OPS else self.lift))
        if op in INT_OPS:
            if not self.unroll and (x >> 40) % 4 == 0:
                return Fraction(1 + x % 97)
            return Fraction(1 + x % 9)
        if x % 7 == 0:
            return Fraction((x // 7) % 7)
        return Fraction((x // 7) % 7919 - 2000, 211)

    # -- evaluation ---------------------------------------------------------
    def ev(self, t):
        m = self.memo
        if t in m:
            v = m[t]
            if v is Skip or v is Err:
                raise v()
            return v
        if self.parent is not None and not (self.lv & levels(t)):
            return self.parent.ev(t)
        if t.op == "bv" and t in self.env:
            return self.env[t]
        try:
            v = self._ev(t)
        except Skip as e:
            m[t] = type(e)
            raise
        except ZeroDivisionError:
            m[t] = Skip
            raise Skip()
        except (TypeError, OverflowError, ValueError):
            m[t] = Skip
            raise Skip()
        if isinstance(v, Fraction) and (v.numerator.bit_length() > 3000 or v.denominator.bit_length() > 3000):
            v = Fraction(h64("big", v.numerator % (2 ** 61 - 1), v.denominator % (2 ** 61 - 1)) % 10007, 97)
        m[t] = v
        return v

    def num(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, Fraction):
            return v
        if isinstance(v, tuple):
            return Fraction(h64("tupnum", v) % 7919, 97)
        if v is None:
            raise Err()
        if isinstance(v, str):
            # an unknown text that is used as a number stands for some number
            return Fraction(h64("strnum", v) % 7919 - 2000, 97)
        raise Skip()

    def boolean(self, t):
        if t.op == "ite":
            return self.boolean(t.args[1] if self.boolean(t.args[0]) else t.args[2])
        v = self.ev(t)
        if t.op == "listcomp":
            return v != ("list",)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Fraction):
            # truthiness of an opaque value
            if t.op in ("var", "select", "lv", "bv") or t.op not in ("add", "mul", "const", "int", "len"):
                return bool(h64("truth", self.seed, v) & 1) if v != 0 else False
            return v != 0
        if isinstance(v, str):
            return v != ""
        if isinstance(v, tuple):
            if v and v[0] in ("list", "dict", "tuple"):
                return len(v) > 1
            return bool(h64("truth", self.seed, v) & 1)
        raise Skip()

    def _ev(self, t):
        op = t.op
        a = t.args
        if op == "const":
            k, v = a
            if k in ("num", "bool", "str"):
                return v
            if k == "none":
                return None
            return (k, v)
        if op in ("var", "lv", "bv"):
            return self.leaf(t)
        if op == "sym":
            if a[0] == "pi":
                return Fraction(355, 113) + Fraction(1, 1000003)
            if a[0] == "nan":
                return ("nan",)
            return Fraction(h64("sym", a[0]) % 7919, 101)
        if op == "field":
            return ("field", a[0])
        if op == "ite":
            return self.ev(a[1] if self.boolean(a[0]) else a[2])
        if self.hom:
            v = self.homev(t)
            if v is not NotImplemented:
                return v
        if self.unroll:
            v = self.uev(t)
            if v is not NotImplemented:
                return v
        if op == "add":
            vs = [self.ev(x) for x in a]
            if any(v == ("nan",) for v in vs if isinstance(v, tuple)):
                return ("nan",)
            return sum((self.num(x) for x in a), Fraction(0))
        if op == "mul":
            r = Fraction(1)
            for x in a:
                r *= self.num(x)
            return r
        if op == "pow":
            b, e = self.num(a[0]), self.num(a[1])
            if e.denominator == 1 and abs(e) <= 24:
                if b == 0 and e < 0:
                    if self.poles:
                        return Fraction(h64("pole", self.seed, e) % 1000003 + 50021)
                    raise Skip()
                return b ** int(e)
            if b == 1:
                return Fraction(1)
            if b == 0:
                return Fraction(0)
            if e.denominator == 2 and abs(e.numerator) <= 16 and b > 0:
                import math
                rn, rd = math.isqrt(b.numerator), math.isqrt(b.denominator)
                if rn * rn == b.numerator and rd * rd == b.denominator:
                    return Fraction(rn, rd) ** e.numerator
            if e.denominator == 1 and a[1].op == "const":
                return self.opaque("pow", (b, e))
            return abs(self.opaque("pow", (b, e)))
        if op == "floordiv":
            return Fraction(self.num(a[0]) // self.num(a[1]))
        if op == "mod":
            return self.num(a[0]) % self.num(a[1])
        if op in ("floor", "np.floor"):
            return Fraction(self.num(a[0]) // 1)
        if op == "np.ceil":
            return Fraction(-((-self.num(a[0])) // 1))
        if op == "int":
            v = self.ev(a[0])
            if isinstance(v, Fraction):
                return Fraction(int(v))
            if isinstance(v, bool):
                return Fraction(int(v))
            return Fraction(int(self.opaque("int", (v,))))
        if op == "np.abs":
            return abs(self.num(a[0]))
        if op == "max":
            return max(self.num(x) for x in a)
        if op == "min":
            return min(self.num(x) for x in a)
        if op in IDENT_OPS and len(a) == 1:
            return self.ev(a[0])
        if op == "lt":
            return self.num(a[0]) < self.num(a[1])
        if op == "le":
            return self.num(a[0]) <= self.num(a[1])
        if op in ("eq", "ne"):
            r = self.equal(a[0], a[1])
            return r if op == "eq" else not r
        if op == "not":
            return not self.boolean(a[0])
        if op == "and":
            return self.kleene(a, False)
        if op == "or":
            return self.kleene(a, True)
        if op == "is":
            v = self.ev(a[0])
            w = self.ev(a[1])
            if w is None:
                if v is None:
                    return True
                if a[0].op == "var":
                    return False
                return bool(h64("isnone", self.seed, v) % 2)
            return v == w
        if op == "exp1":
            pass
        if op in ("tuple", "list"):
            return (op,) + tuple(self.ev(x) for x in a)
        if op == "kv":
            return ("kv", self.ev(a[0]), self.ev(a[1]))
        if op == "dict":
            return ("dict",) + tuple(sorted((self.ev(x) for x in a), key=repr))
        if op == "lam":
            h, n = int(a[1].args[1]), int(a[2].args[1])
            env = {tm.raw("bv", h, k): Fraction(h64("lam", self.seed, self.nest, k) % 4001 - 1400, 128) for k in range(n)}
            return ("lam", n, self.bind(env).ev(a[0]))
        if op == "listcomp":
            cnt = self.ev(a[0])
            if isinstance(cnt, Fraction) and cnt <= 0:
                return ("list",)
            ch = self.bind(self.index_env(int(a[3].args[1])))
            r = (cnt, ch.tryev(a[1]), ch.tryev(a[2]))
            if a[2] is not tm.TRUE and h64("empty", self.seed, r) % 4 == 0:
                return ("list",)
            return self.opaque("listcomp", r)
        if op == "len" and a[0].op == "listcomp" and self.ev(a[0]) == ("list",):
            return Fraction(0)
        if op == "len" and a[0].op in ELEMENTWISE:
            # as long as the operands the elements come from
            ops = operands(a[0])
            if len(ops) == 1:
                return self.ev(tm.raw("len", *ops))
            return self.opaque("len", (("of",) + tuple(sorted((self.ev(x) for x in ops), key=repr)),))
        if op == "select":
            if a[0].op == "dict" and a[1].op == "const" and all(
                    x.op == "kv" and x.args[0].op == "const" and x.args[0] is not a[1] for x in a[0].args):
                raise Err()  # no such key
            if a[0].op == "dict" and a[0].args and all(x.op == "kv" and x.args[0].op == "const" for x in a[0].args):
                i = self.ev(a[1])
                for x in reversed(a[0].args):
                    if self.ev(x.args[0]) == i:
                        return self.ev(x.args[1])
                raise Err()
            b, i = self.ev(a[0]), self.ev(a[1])
            return self.opaque("select", (b, i))
        if op == "fix" or op == "wfix":
            if op == "fix":
                cnt = self.ev(a[0])
                if isinstance(cnt, Fraction) and cnt <= 0:
                    return self.ev(a[1].args[0])
            return self.loop_value(t)
        if op == "raises":
            # what the attempted block computes is not compared, only which round it is in
            rnd = sorted({y for y in tm.walk(t) if y.op == "bv" and y.args[1] == 0}, key=lambda y: y.args[0]) if tm.bvh(t) else ()
            x = h64("raises", self.seed, self.ev(a[0]), tuple(self.ev(y) for y in rnd))
            self.lastx = x
            return self.alias[x] if x in self.alias else bool(x & 1)
        if op in ("slice", "ref"):
            return (op,) + tuple(self.ev(x) if isinstance(x, T) else x for x in a)
        if op == "ext" and "." not in a[0] and not hasattr(builtins, a[0]) and a[0] not in ("__file__", "__name__"):
            raise Err()  # no such name
        if op in ("ext", "fn", "clsref", "modref", "dtype", "nttype"):
            return (op,) + tuple(a)
        if op in ("bitand", "bitor"):
            vs = [self.ev(x) for x in a]
            if all(isinstance(v, bool) for v in vs):
                return all(vs) if op == "bitand" else any(vs)
            return self.opaque(op, tuple(sorted(vs, key=repr)))
        if op == "np.invert":
            v = self.ev(a[0])
            if isinstance(v, bool):
                return not v
        if op == "concat":
            vs = [self.ev(x) for x in a]
            if all(isinstance(v, str) for v in vs):
                return "".join(vs)
            vs = [v for v in vs if v != ("list",)]
            if len(vs) == 1:
                return vs[0]
            if vs and all(isinstance(v, tuple) and v and v[0] == "list" for v in vs):
                return ("list",) + tuple(x for v in vs for x in v[1:])
            out = []
            for v in vs:
                if isinstance(v, str) and out and isinstance(out[-1], str):
                    out[-1] += v
                elif v != "":
                    out.append(v)
            if len(out) == 1:
                return out[0]
            return self.opaque("concat", tuple(out)) if out else ("list",)
        vals = []
        for x in a:
            vals.append(self.ev(x) if isinstance(x, T) else x)
        if op == "store" and isinstance(vals[1], str) and a[1].op == "const":
            b = vals[0]
            if not (isinstance(b, tuple) and b and b[0] in ("dict", "st")):
                b = ("st", b, ())
            return self.ustore(b, vals[1], vals[2])
        return self.opaque(op, tuple(vals))

    def kleene(self, args, absorbing):
        skipped = False
        for x in args:
            try:
                if self.boolean(x) is absorbing:
                    return absorbing
            except Skip:
                skipped = True
        if skipped:
            raise Skip()
        return not absorbing

    def equal(self, x, y):
        v, w = self.ev(x), self.ev(y)
        if isinstance(v, bool) and isinstance(w, Fraction) or isinstance(w, bool) and isinstance(v, Fraction):
            v = Fraction(int(v)) if isinstance(v, bool) else v
            w = Fraction(int(w)) if isinstance(w, bool) else w
        if type(v) is not type(w):
            # opaque value against a string/None/tuple constant
            for p, q in ((x, y), (y, x)):
                if p.op == "var":
                    return False
            return bool(h64("eq", self.seed, *sorted([repr(v), repr(w)])) % 2)
        return v == w


# ------------------------------------------------------------------ domains
def opkey(t):
    """under which key Valuation.opaque looks up what t is compared with"""
    if t.op == "select":
        i = t.args[1]
        if i.op == "const" and i.args[0] in ("num", "str"):
            return ("select", repr(i.args[1]))
        if i.op == "field":
            return ("select", repr(("field", i.args[0])))
        return None
    return t.op


def pools_for(ts):
    """what each leaf is compared with / used as, over all terms"""
    pools = {}

    def get(t):
        return pools.setdefault(t, {"str": set(), "num": set()})

    pools[None] = {"str": set(), "num": set()}
    seen = set()
    stack = list(ts)
    leaves = ("var", "lv")
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        a = [x for x in t.args if isinstance(x, T)]
        stack.extend(a)
        if t.op in ("eq", "ne", "lt", "le", "in"):
            prs = [(a[0], a[1]), (a[1], a[0])]
            while prs:
                x, y = prs.pop()
                if x.op == "ite" and y.op == "const":
                    prs += [(x.args[1], y), (x.args[2], y)]
                    continue
                if x.op in leaves:
                    if y.op == "const":
                        k, v = y.args
                        if k == "str":
                            get(x)["str"].add(v)
                        elif k == "num":
                            get(x)["num"].add(v)
                        elif k == "bool":
                            get(x)["bool"] = True
                elif y.op == "const" and x.op not in ("const", "bv") and (x.op not in INTERP):
                    k, v = y.args
                    key = opkey(x)
                    if k == "str":
                        get(key)["str"].add(v)
                    elif k == "num":
                        get(key)["num"].add(v)
                elif x.op == "add" and len(x.args) == 2 and x.args[0].op in leaves and tm.is_num(x.args[1]) and tm.is_num(y):
                    get(x.args[0])["num"].add(y.args[1] - x.args[1].args[1])
        elif t.op == "select" and a[0].op == "dict" and a[0].args and a[1].op not in ("const", "bv") and (
                a[1].op in leaves or a[1].op not in INTERP):
            key = a[1] if a[1].op in leaves else opkey(a[1])
            for x in a[0].args:
                if x.op == "kv" and x.args[0].op == "const" and x.args[0].args[0] in ("str", "num"):
                    get(key)[x.args[0].args[0]].add(x.args[0].args[1])
        elif t.op == "is" and a and a[0].op in leaves:
            get(a[0])["none"] = True
        elif t.op in ("mod", "floordiv", "range", "np.arange", "rangelen"):
            for x in a:
                for z in ([x] if x.op in leaves else []):
                    get(z)["int"] = True
        elif t.op in ("ite", "not", "and", "or"):
            for x in (a[:1] if t.op == "ite" else a):
                if x.op in leaves:
                    get(x)["bool"] = True
    return pools


# ------------------------------------------------------------------ compare
EQUAL, DIFFERENT, UNKNOWN = "equal", "different", "unknown"

FAMILIES = [
    {"np.mean", "np.nanmean", "np.median", "np.average", "np.nanmedian", "np.sum", "np.nansum", "np.max", "np.min",
     "np.std", "np.var", "np.nanstd", "np.nanmax", "np.nanmin", "np.prod", "np.ptp"},
    {"np.sin", "np.cos", "np.tan", "np.arcsin", "np.arccos", "np.arctan", "np.sinh", "np.cosh", "np.tanh",
     "np.exp", "np.log", "np.log10", "np.log2", "np.log1p", "np.expm1", "np.arctan2"},
    {"np.floor", "np.ceil", "np.rint", "round", "np.round", "int", "np.trunc", "floor"},
    {"np.any", "np.all"},
    {"np.argmax", "np.argmin", "np.argsort", "np.nanargmax", "np.nanargmin"},
    {"max", "min"},
    {"np.zeros", "np.ones", "np.empty", "np.full"},
    {"np.zeros_like", "np.ones_like", "np.empty_like"},
    {"np.isnan", "np.isinf", "np.isfinite"},
    {"np.tril", "np.triu"},
    {"np.real", "np.imag", "np.abs", "np.angle", "np.conjugate"},
    {"bitand", "bitor", "and", "or"},
    {"np.cumsum", "np.cumprod"},
    {"np.fft.fft2", "np.fft.ifft2", "np.fft.fftn", "np.fft.ifftn", "np.fft.fft", "np.fft.ifft"},
    {"np.fft.fftshift", "np.fft.ifftshift"},
    {"scipy.special.erf", "scipy.special.erfc", "scipy.special.wofz", "scipy.special.gamma", "scipy.special.gammaln"},
    {"s.lower", "s.upper", "m.lower", "m.upper", "s.capitalize", "m.capitalize"},
    {"s.startswith", "s.endswith", "m.startswith", "m.endswith"},
    {"keys", "values", "items"},
]
FAM = {}
for _i, _f in enumerate(FAMILIES):
    for _n in _f:
        FAM[_n] = _i

# operators that are not the identity on general arguments
NONIDENT = set(FAM) | {"np.abs", "np.sort", "np.unique", "np.cumsum", "store", "np.exp", "np.log", "astype",
                       "np.sign", "np.invert", "not", "np.conjugate", "np.nan_to_num", "np.flipud", "np.fliplr",
                       "m.strip", "m.rstrip", "m.lstrip", "np.dot", "np.linalg.inv", "int", "round", "scipy.signal.fftconvolve"} - {"np.real"}

INTERP = {"add", "mul", "pow", "floordiv", "mod", "floor", "np.floor", "np.ceil", "int", "np.abs", "max", "min", "lt",
          "le", "eq", "ne", "not", "and", "or", "is", "float", "np.array", "np.asarray", "ite", "tolist", "np.invert"}
ARITH = INTERP - {"ite"}


class Diff:
    loopy = False

    def __init__(self, kind, s, i, why):
        self.kind = kind
        self.s = s
        self.i = i
        self.why = why

    def text(self):
        return "%s\n      required: %s\n      found:    %s" % (
            self.why, tm.show(self.s, 9)[:900] if self.s is not None else "-",
            tm.show(self.i, 9)[:900] if self.i is not None else "-")


class Comparer:
    def __init__(self, samples=60, doms=None, assumes=(), seed=1):
        self.samples = samples
        self.doms = doms or {}
        self.assumes = list(assumes)
        self.eqs = []
        for a in self.assumes:
            self._eqs(a, 0)
        self.seed = seed

    def _eqs(self, a, d):
        if d > 12 or len(self.eqs) >= 8:
            return
        if a.op in ("and", "or", "not", "ite", "truthy"):
            for x in a.args:
                self._eqs(x, d + 1)
        elif a.op in ("eq", "ne"):
            x, y = a.args
            for x, y in ((x, y), (y, x)):
                if (x.op == "len" or x.op == "select" and (x.args[1].op == "field" or tm.is_const(x.args[1]))) \
                        and not tm.bvh(x) and not tm.bvh(y) \
                        and not tm.is_const(y) and all(x is not p for p, q in self.eqs):
                    self.eqs.append((x, y))
                    break

    def compare(self, s, i):
        """s: required term, i: found term -> (verdict, Diff|None)"""
        v, d = self.compare1(s, i)
        if s is i or self.inner or v is DIFFERENT:
            return v, d
        from .extra import extra_step, special_case

        def same(a, b):
            self.inner = True
            try:
                return self.compare1(a, b)[0] is EQUAL
            finally:
                self.inner = False
        if v is EQUAL:
            # single values replaced: samples do not meet them
            r = extra_step(s, i, self.doms, same, {"ite"})
            if r is not None:
                return DIFFERENT, Diff(DIFFERENT, s, r[0], "an extra step: " + r[1])
        if v is UNKNOWN:
            r = extra_step(s, i, self.doms, same)
            if r is not None:
                return DIFFERENT, Diff(DIFFERENT, s, r[0], "an extra step: " + r[1])

            def differ(a, b, c):
                o = Comparer(self.samples, self.doms, list(self.assumes) + [c], self.seed)
                o.inner = True
                v, d = o.compare1(a, b)
                if v is DIFFERENT:
                    return d
                r = extra_step(a, b, self.doms, same) if v is UNKNOWN else None
                return Diff(DIFFERENT, a, r[0], "an extra step: " + r[1]) if r is not None else None
            r = special_case(s, i, self.doms, same, differ)
            if r is not None:
                return DIFFERENT, Diff(DIFFERENT, r[1].s, r[1].i, "where %s goes the other way: %s" % (tm.show(r[0])[:80], r[1].why))
        return v, d

    inner = False

    def compare1(self, s, i):
        if s is i:
            return EQUAL, None
        pools = pools_for([s, i] + self.assumes)
        self.hot = None
        v, d, n = self.sample(s, i, pools, False, self.samples)
        if v is EQUAL or v is UNKNOWN:
            v3, d3 = self.directed(s, i, pools)
            if v3 is DIFFERENT and not d3.loopy or v is EQUAL and v3 is not EQUAL:
                v, d = v3, d3
        if v is EQUAL and loops_of(s):
            d3 = self.exact(s, i, pools)
            if d3 is not None:
                return DIFFERENT, d3
        if v is EQUAL:
            d3 = self.ties(s, i)
            if d3 is not None:
                return DIFFERENT, d3
        if v is not UNKNOWN and not (v is DIFFERENT and d.loopy) or d is not None and d.kind == "few":
            return v, d
        d3 = self.exact(s, i, pools)
        if d3 is not None:
            return DIFFERENT, d3
        # the loops do not correspond one to one: compare their bounded unrollings
        v2, d2, n2 = self.sample(s, i, pools, True, max(40, self.samples))
        if v2 is EQUAL or v2 is UNKNOWN:
            d3 = self.exact(s, i, pools, True)
            if d3 is not None:
                return DIFFERENT, d3
        if v2 is EQUAL and v is DIFFERENT and self.hot is not None:
            d3 = self.insist(s, i, pools)
            if d3 is not None:
                return DIFFERENT, d3
        if v2 is EQUAL:
            d3 = self.ties(s, i)
            if d3 is not None:
                return DIFFERENT, d3
            return UNKNOWN, Diff(UNKNOWN, s, i, "equal on every bounded unrolling (%d interpretations), not shown equal in general" % n2)
        if v2 is DIFFERENT:
            return v2, d2
        if v is UNKNOWN and n >= 4 or v2 is UNKNOWN and n2 >= 4:
            x = self.same_words(s, i, pools, has_loop(s) or has_loop(i))
            if x:
                d = (d if v is UNKNOWN else d2) or d2
                return DIFFERENT, Diff(DIFFERENT, d.s, d.i, "same operations, different value (" + d.why + ")")
        return UNKNOWN, d2 or d

    def exact(self, s, i, pools, opaque=False):
        """both terms are arithmetic, decisions, element accesses and counted
        loops over the same inputs: one interpretation that tells them apart
        is a counterexample.  opaque: other operations too, in which case the
        difference must be traced to its place"""
        ls, li = set(), set()
        ex = exact_leaves(s, ls) and exact_leaves(i, li) and li <= ls
        if not ex and not opaque:
            return None
        rng = random.Random(self.seed)
        loops = loops_of(s) + [x for x in loops_of(i) if x not in loops_of(s)]
        paths = [(None, [], None)] * (40 if ex else 0)
        cs, ci = ({t for t in tm.walk(x) if t.op in ("lt", "le")} for x in (s, i))
        new = cs ^ ci
        for lp in loops:
            ps, edge = [], []
            for t in lp.args[2].args:
                leaves(t, [], ps, set(), 0)
            if lp.args[2].args[-1].op != "const":
                ps.append([(lp.args[2].args[-1], True)])
            for p in ps:
                edge += [(lp, p, x) for c, b in p for x in junctions(c) if x in new]
            paths += [(lp, p, None) for p in (ps if len(ps) <= 60 else rng.sample(ps, 60))]
            paths += edge if len(edge) <= 40 else rng.sample(edge, 40)
        bad, n = 0, 0
        for k, (lp, p, tie) in enumerate(paths):
            val = Valuation((self.seed, "x", k), self.doms, pools, unroll=True, coarse=(3, 0, 5, 0)[k % 4] if lp is None else 0)
            try:
                val.free_sides = True
                small = [lp.args[0] for lp in loops]
                for rnd in range(12):
                    for c in small:
                        x = val.ev(c)
                        if not isinstance(x, Fraction) or x > 6 or x < 1 and k % 5 or not ex and x.denominator != 1:
                            val.want_value(c, Fraction(1 + k % 4))
                    if all(val.boolean(a) for a in self.assumes):
                        break
                    for a in self.assumes:
                        val.want(a, True, rng)
                if lp is not None:
                    cnt, inits, upds, stop, h = val.loop_parts(lp)
                    likes = [val.tryev(x) for x in inits]
                    for r in (0, 1) if tie is None else (k % 3,):
                        env = {tm.raw("bv", h, 0): Fraction(r)}
                        for j, v in enumerate(likes):
                            env[tm.raw("bv", h, j + 1)] = v
                        at = val.bind(env)
                        for rnd in range(3):
                            for c, b in p:
                                if c is not tie:
                                    at.want(c, b, rng)
                            if tie is not None:
                                at.touch(tie)
                val.forget()
                if DBG and lp is not None:
                    print("  ", k, [at.known(c) is b for c, b in p], [val.known(a) for a in self.assumes], val.ev(cnt))
                if not all(val.boolean(a) for a in self.assumes):
                    continue
                vs, vi = val.ev(s), val.ev(i)
            except Skip:
                if DBG:
                    print("   skip", k)
                continue
            if DBG:
                print("X", k, len(p), vs, vi)
            if has_skip(vs) or has_skip(vi):
                continue
            n += 1
            if not _same(vs, vi):
                if not ex:
                    bl = Blamer(val)
                    d = bl.blame(s, i)
                    if d.kind == DIFFERENT:
                        return d
                    bad += 1
                    if bad > 12:
                        return None
                    continue
                bad += 1
                if bad >= 2:
                    return Diff(DIFFERENT, s, i, "another value for the same inputs")
        return None

    def insist(self, s, i, pools):
        """one round of the loops differs for some inputs: do whole runs, on
        those inputs and under many readings of the opaque operations?"""
        for k in range(1, 161):
            val = Valuation(self.hot, self.doms, pools, unroll=True)
            val.salt = k
            try:
                if not all(val.boolean(a) for a in self.assumes):
                    continue
                vs, vi = val.ev(s), val.ev(i)
            except Skip:
                continue
            if has_skip(vs) or has_skip(vi) or _same(vs, vi):
                continue
            d = Blamer(val).blame(s, i)
            if d.kind == DIFFERENT:
                return d
        return None

    def ties(self, s, i):
        """a comparison that is strict in one term and not in the other: what
        happens when its two sides are the same value?"""
        cs = {t for t in tm.walk(s) if t.op in ("lt", "le")}
        ci = {t for t in tm.walk(i) if t.op in ("lt", "le")}
        for c in sorted(ci - cs, key=tm.skey)[:6]:
            o = {"lt": "le", "le": "lt"}[c.op]
            a, b = c.args
            for r in (tm.raw(o, a, b), tm.raw(c.op, b, a), tm.raw(o, b, a)):
                if r not in cs or r in ci:
                    continue
                for x, y in ((a, b), (b, a)):
                    if x.op in ("const", "add", "mul", "ite", "tuple") or inside(x, y) or inside(y, x):
                        continue
                    s2, i2 = tm.subst(s, {x: y}), tm.subst(i, {x: y})
                    if s2 is i2:
                        continue
                    ass = [tm.subst(z, {x: y}) for z in self.assumes]
                    pools = pools_for([s2, i2] + ass)
                    bad = 0
                    for k in range(96):
                        val = Valuation((self.seed, "tie", k), self.doms, pools, coarse=(0, 3)[k % 2])
                        val.poles = True
                        try:
                            if not all(val.boolean(z) for z in ass):
                                rng = random.Random(k)
                                for z in ass:
                                    val.want(z, True, rng)
                                if not all(val.boolean(z) for z in ass):
                                    continue
                            vs, vi = val.ev(s2), val.ev(i2)
                        except Skip:
                            continue
                        if not _same(vs, vi) and not has_skip(vs) and not has_skip(vi):
                            bad += 1
                            if bad >= 3:
                                return Diff(DIFFERENT, r, c, "decided the other way when both sides are the same")
        return None

    def directed(self, s, i, pools):
        """one interpretation for each way through the decisions of either term"""
        paths = []
        for t in (s, i):
            leaves(t, [], paths, set(), 0)
        rng = random.Random(self.seed)
        if len(paths) <= 2 and not loops_of(s):
            return EQUAL, None
        if len(paths) > 160:
            paths = rng.sample(paths, 160)
        unk = None
        paths = [(None, p) for p in paths]
        for lp in loops_of(s) + [x for x in loops_of(i) if x not in loops_of(s)]:
            ps = []
            for t in lp.args[2].args if lp.op == "fix" else ():
                leaves(t, [], ps, set(), 0)
            if lp.op == "fix" and lp.args[2].args[-1].op != "const":
                ps.append([(lp.args[2].args[-1], True)])
                if lp.args[2].args[-1].op == "or":
                    ps += [[(x, True)] for x in lp.args[2].args[-1].args]
            if len(ps) > 60:
                ps = rng.sample(ps, 60)
            paths += [(lp, p) for p in ps]
        cs, ci = ({t for t in tm.walk(x) if t.op in ("lt", "le")} for x in (s, i))
        new = cs ^ ci
        paths = [(lp, p, None) for lp, p in paths]
        if new:
            edge = []
            for lp, p, _ in paths:
                edge += [(lp, p, x) for c, b in p for x in junctions(c) if x in new]
            paths += edge if len(edge) <= 80 else rng.sample(edge, 80)
        for k, (lp, p, tie) in enumerate(paths):
            val = Valuation((self.seed, "d", k), self.doms, pools)
            try:
                at = val
                if lp is not None:
                    cnt, inits, upds, stop, h = val.loop_parts(lp)
                    likes = [val.tryev(x) for x in inits]
                    env = {tm.raw("bv", h, 0): Fraction(h64("it", val.seed, val.nest, 0) % 11)}
                    for j, v in enumerate(likes):
                        env[tm.raw("bv", h, j + 1)] = bound_value(v, h64("c0", repr(v)), val.seed)
                    at = val.bind(env)
                for rnd in range(1 if lp is None else 3):
                    if not all(val.boolean(a) for a in self.assumes):
                        for a in self.assumes:
                            val.want(a, True, rng)
                    for c, b in p:
                        if c is not tie:
                            at.want(c, b, rng)
                    if tie is not None:
                        at.touch(tie)
                val.memo.clear()
                if not all(val.boolean(a) for a in self.assumes):
                    continue
                vs, vi = val.ev(s), val.ev(i)
            except Skip:
                continue
            if _same(vs, vi):
                continue
            bl = Blamer(val)
            d = bl.blame(s, i)
            d.loopy = bl.nb > 0
            if d.kind == DIFFERENT:
                return DIFFERENT, d
            unk = unk or d
        return (EQUAL, None) if unk is None else (UNKNOWN, unk)

    def same_words(self, s, i, pools, loops):
        """the found term is built from the operations of the required one only,
        and is worth something else under every interpretation"""
        if not words(i) <= words(s):
            return False
        bad = 0
        n = 0
        for k in range(1, 601):
            if k > 120 and not bad:
                break
            val = Valuation((self.seed, "hom", k), self.doms, pools, unroll=loops,
                            coarse=((3, 2, 4, 0) if loops else (0, 0, 0, 3))[k % 4], hom=True)
            try:
                if not all(val.boolean(a) for a in self.assumes):
                    rng = random.Random(k)
                    for a in self.assumes:
                        val.want(a, True, rng)
                    if not all(val.boolean(a) for a in self.assumes):
                        continue
                vs = val.ev(s)
                vi = val.ev(i)
            except Skip:
                continue
            n += 1
            if not _same(vs, vi):
                bad += 1
                if bad >= 3:
                    return True
            if n > 60:
                break
        return False

    def sample(self, s, i, pools, unroll, samples):
        first_unknown = None
        n = 0
        tries = 0
        nunk = 0
        while n < samples and tries < samples * 6:
            tries += 1
            val = Valuation((self.seed, tries), self.doms, pools, unroll=unroll, coarse=((3, 0, 5, 0) if unroll else (0, 0, 3, 2))[tries % 4])
            try:
                if tries % 3 and not val.coarse:
                    for x, y in self.eqs + self.eqs[:-1]:
                        val.force(x, y)
                if not all(val.boolean(a) for a in self.assumes):
                    rng = random.Random(tries)
                    for a in self.assumes:
                        val.want(a, True, rng)
                    if not all(val.boolean(a) for a in self.assumes):
                        continue
            except Skip:
                continue
            try:
                vs = val.ev(s)
            except Skip:
                continue
            bl = None
            try:
                vi = val.ev(i)
            except Err:
                bl = Blamer(val)
                d = bl.error(s, i)
                d.loopy = False
                n += 1
                if d.kind == DIFFERENT:
                    return DIFFERENT, d, n
                continue
            except Skip:
                continue
            if unroll and (has_skip(vs) or has_skip(vi)):
                continue
            n += 1
            if vs == vi and type(vs) is type(vi) or _same(vs, vi):
                continue
            bl = Blamer(val)
            d = bl.blame(s, i)
            d.loopy = bl.nb > 0
            if d.kind == DIFFERENT:
                if not unroll:
                    self.hot = val.seed
                return DIFFERENT, d, n
            first_unknown = first_unknown or d
            nunk += 1
            if nunk > 12:
                break
        if first_unknown is not None:
            return UNKNOWN, first_unknown, n
        if n < max(4, samples // 8):
            d = Diff(UNKNOWN, s, i, "too few valuations in the common domain (%d)" % n)
            return UNKNOWN, d, n
        return EQUAL, None, n


DBG = False
EXACT = {"add", "mul", "pow", "floordiv", "mod", "floor", "int", "np.abs", "max", "min", "lt", "le", "eq", "ne", "not", "and", "or",
         "ite", "const", "bv", "float", "store", "fix", "lam", "tuple", "np.zeros", "np.reshape", "is", "list", "append"}


def exact_leaves(t, out, seen=None):
    """collects the inputs of a term made of exactly interpreted operations"""
    if seen is None:
        seen = set()
    if t in seen:
        return True
    seen.add(t)
    if t.op == "select" and t.args[1].op != "field":
        if nonscalar(t.args[1]):
            return False
        return exact_leaves(t.args[0], out, seen) and exact_leaves(t.args[1], out, seen)
    if t.op == "slice":
        return False
    if t.op in EXACT:
        return all(exact_leaves(a, out, seen) for a in t.args if isinstance(a, T))
    if tm.bvh(t):
        return False
    out.add(t)
    return True


def junctions(c):
    """the comparisons a condition is made of"""
    if c.op in ("not", "and", "or"):
        return [x for a in c.args for x in junctions(a)]
    return [c]


def inside(x, t):
    return any(y is x for y in tm.walk(t))


def loops_of(t, out=None, seen=None):
    """the counted loops of t that lie in no other"""
    if out is None:
        out, seen = [], set()
    if t in seen or len(out) > 6:
        return out
    seen.add(t)
    if t.op == "fix":
        out.append(t)
        return out
    if t.op in ("lam", "listcomp", "bigsum", "wfix"):
        return out
    for a in t.args:
        if isinstance(a, T):
            loops_of(a, out, seen)
    return out


def leaves(t, path, out, seen, depth):
    """decision paths through t: lists of (condition, truth)"""
    if len(out) > 400 or depth > 40:
        return
    if t.op == "ite":
        for b, x in ((True, t.args[1]), (False, t.args[2])):
            p = path + [(t.args[0], b)]
            n = len(out)
            leaves(x, p, out, seen, depth + 1)
            if len(out) == n:
                out.append(p)
        return
    if (t, len(path)) in seen or t.op in ("var", "const", "bv", "lv"):
        return
    seen.add((t, len(path)))
    if t.op in ("or", "and", "not"):
        for a in t.args:
            if a.op not in ("const",):
                out.append(path + [(a, t.op != "and")])
        return
    for a in t.args:
        if isinstance(a, T):
            leaves(a, path, out, seen, depth + 1)


def has_skip(v):
    return isinstance(v, tuple) and (v == ("skip",) or any(has_skip(x) for x in v))


def _same(a, b):
    if isinstance(a, bool) and isinstance(b, Fraction):
        return Fraction(int(a)) == b
    if isinstance(b, bool) and isinstance(a, Fraction):
        return Fraction(int(b)) == a
    return a == b and type(a) is type(b)


class Blamer:
    def __init__(self, val):
        self.v = val
        self.depth = 0
        self.seen = {}
        self.nb = 0

    def val(self, t):
        try:
            return self.v.ev(t)
        except Skip:
            return ("skip", t.uid)

    def same(self, a, b):
        return _same(self.val(a), self.val(b))

    def key(self, t):
        """identity of a term under this valuation"""
        v = self.val(t)
        if not self.v.coarse:
            return repr(v)
        try:
            return repr((v, self.v.fine.ev(t)))
        except Skip:
            return repr((v, "skip", t.uid))

    def ident(self, a, b):
        return self.same(a, b) and (not self.v.coarse or self.key(a) == self.key(b))

    def blame(self, s, i):
        key = (s, i)
        if key in self.seen:
            return self.seen[key]
        self.seen[key] = Diff(UNKNOWN, s, i, "recursive")
        self.depth += 1
        if self.depth > 400:
            r = Diff(UNKNOWN, s, i, "too deep")
        else:
            r = self._blame(s, i)
        self.depth -= 1
        self.seen[key] = r
        return r

    def error(self, s, i):
        """the found value cannot be computed where the required one can"""
        conds = []
        t = i
        while True:
            if t.op == "ite":
                nxt = None
                try:
                    c = self.v.boolean(t.args[0])
                    conds.append(t.args[0])
                    nxt = t.args[1] if c else t.args[2]
                except Skip:
                    nxt = t.args[0]
                t = nxt
                continue
            if t.op in ("fix", "wfix", "listcomp", "lam", "and", "or"):
                return Diff(UNKNOWN, s, i, "not computable inside " + t.op)
            for a in t.args:
                if isinstance(a, T):
                    try:
                        self.v.ev(a)
                    except Err:
                        t = a
                        break
                    except Skip:
                        pass
            else:
                break
        known = {self.key(x) for x in self.vocab(s)}
        for c in conds:
            for a in self.atoms(c):
                if not plain(a) and self.key(a) not in known:
                    return Diff(UNKNOWN, s, i, "condition not in the requirement's vocabulary: " + tm.show(c, 5))
        return Diff(DIFFERENT, s, i, "computes with None: " + tm.show(t, 5))

    def resolve(self, t):
        while t.op == "ite":
            try:
                t = t.args[1] if self.v.boolean(t.args[0]) else t.args[2]
            except Skip:
                return t
        return t

    def gate_leaves(self, t):
        out, seen, stack = [], set(), [t]
        while stack and len(out) < 40:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "ite":
                stack += [x.args[2], x.args[1]]
            else:
                out.append(x)
        return out

    def atoms(self, t):
        """maximal uninterpreted subterms below interpreted operators"""
        out = []
        seen = set()

        def go(t):
            if t in seen:
                return
            seen.add(t)
            if t.op == "const":
                return
            if t.op == "ite":
                try:
                    c = self.v.boolean(t.args[0])
                except Skip:
                    c = True
                go(t.args[0])
                go(t.args[1] if c else t.args[2])
                return
            if t.op in ARITH:
                for a in t.args:
                    if isinstance(a, T):
                        go(a)
                return
            out.append(t)

        go(t)
        return out

    def _blame(self, s, i):
        # gates
        if s.op == "ite" or i.op == "ite":
            if s.op == "ite" and i.op == "ite":
                cs, ci = s.args[0], i.args[0]
                if not self.same(cs, ci):
                    # conditions over the same vocabulary that disagree here?
                    if s.args[1] is i.args[1] or s.args[2] is i.args[2] or self.ident(s.args[1], i.args[1]) \
                            or self.ident(s.args[2], i.args[2]):
                        d = self.blame(cs, ci)
                        if d.kind == DIFFERENT:
                            return d
                        return Diff(UNKNOWN, cs, ci, "branch conditions not comparable: " + d.why)
            rs, ri = self.resolve(s), self.resolve(i)
            if rs is s and ri is i:
                return Diff(UNKNOWN, s, i, "unresolved gate")
            # vocabulary of the decisions
            d = self.gate_vocab(s, i)
            if d is not None:
                return d
            r = self.blame(rs, ri)
            if r.kind == UNKNOWN and ri.op not in ("const", "unsupported", "sym") and s.op == "ite":
                for l in self.gate_leaves(s):
                    if l is not rs and self.ident(l, ri):
                        return Diff(DIFFERENT, s, i, "takes the value required in another case")
            return r
        if s.op == "const" and i.op == "const":
            return Diff(DIFFERENT, s, i, "constant differs")
        if s.op in ("unsupported",) or i.op in ("unsupported",):
            return Diff(UNKNOWN, s, i, "unsupported construct")
        if i.op == "sym" and i.args[0] in ("undef", "closure", "cycle") or s.op == "sym" and s.args[0] in (
                "undef", "closure", "cycle"):
            return Diff(UNKNOWN, s, i, "undefined value")
        if {s.op, i.op} == {"ext", "lam"}:
            l, e = (s, i) if s.op == "lam" else (i, s)
            h, n = int(l.args[1].args[1]), int(l.args[2].args[1])
            x = tm.raw("lam", tm.raw(e.args[0], *(tm.raw("bv", h, k) for k in range(n))), l.args[1], l.args[2])
            return self.lams(s, x) if s is l else self.lams(x, i)
        if s.op == i.op and s.op not in ARITH:
            return self.same_op(s, i)
        if s.op in ARITH or i.op in ARITH:
            return self.arith(s, i)
        leafy = ("var", "bv", "lv", "const", "sym")
        if s.op in leafy and i.op in leafy:
            return Diff(DIFFERENT, s, i, "different quantity used")
        if FAM.get(s.op) is not None and FAM.get(s.op) == FAM.get(i.op):
            if self.args_match(s, i):
                return Diff(DIFFERENT, s, i, "operation %s where %s is required" % (i.op, s.op))
            if len(s.args) == len(i.args):
                return Diff(UNKNOWN, s, i, "operation and arguments differ")
        if {s.op, i.op} == {"sorted", "np.sort"} and self.ident(s.args[0], i.args[0]):
            return Diff(DIFFERENT, s, i, "sorted by another key")
        for a, b, what in ((s, i, "performed where none is required"), (i, s, "missing")):
            # b is a with further writes / appended elements
            x = b
            n = 0
            while x.op in ("append", "store", "concat") and n < 60:
                x = x.args[0]
                n += 1
            if n and (x is a or self.ident(x, a)):
                return Diff(DIFFERENT, s, i, "a write is " + what)
        if plain(s) and plain(i):
            return Diff(DIFFERENT, s, i, "uses %s where %s is required" % (tm.show(i, 5), tm.show(s, 5)))
        for a, b, what in ((s, i, "a loop changes a value that must not change"),
                           (i, s, "the loop that computes this value is gone")):
            if b.op in ("fix", "wfix") and not has_loop(a):
                self.nb += 1  # to be confirmed by unrolling
                init = self.v.loop_parts(b)[1][0]
                if init is a or self.ident(init, a):
                    return Diff(DIFFERENT, s, i, what)
            if b.op == "listcomp" and a.op == "list" and not a.args:
                return Diff(DIFFERENT, s, i, what)
        if "listcomp" in (s.op, i.op) and "fix" in (s.op, i.op):
            return self.fixes(as_fix(s), as_fix(i))
        return self.wrapper(s, i)

    def gate_vocab(self, s, i):
        """None when the found term's decisions only use conditions the
        required term also distinguishes; otherwise examine."""
        cs = self.cond_list(s)
        ci = self.cond_list(i)
        vs = {}
        for c in cs:
            vs.setdefault(self.sig(c), c)
        unk = None
        for c in ci:
            if self.sig(c) in vs or c in cs:
                continue
            # unmatched condition on the found side
            un_s = [x for x in cs if all(self.sig(x) != self.sig(y) for y in ci)]
            for x in un_s:
                if not self.same(x, c):
                    d = self.blame(x, c)
                    if d.kind == DIFFERENT:
                        return d
            # a new condition whose vocabulary is known is a new special case
            unk = c
        if unk is not None:
            known = set()
            for c in cs:
                for t in self.atoms(c):
                    known.add(self.key(t))
            for t in self.vocab(s):
                known.add(self.key(t))
            for c in ci:
                if self.sig(c) in vs or c in cs:
                    continue
                for t in self.atoms(c):
                    if not plain(t) and self.key(t) not in known:
                        return Diff(UNKNOWN, s, i, "condition not in the requirement's vocabulary: " + tm.show(c, 5))
        return None

    def vocab(self, t):
        """uninterpreted subterms of t (bounded)"""
        out, seen, stack = [], set(), [t]
        while stack and len(out) < 400:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op not in ARITH and x.op not in ("ite", "const", "field", "kv", "tuple", "list", "slice"):
                if x.op in ("fix", "wfix", "listcomp", "lam"):
                    out.append(x)
                    continue
                out.append(x)
            stack.extend(a for a in x.args if isinstance(a, T))
        return out

    def sig(self, c):
        return tm.skey(c)

    def cond_list(self, t):
        out = []
        while t.op == "ite":
            out.append(t.args[0])
            try:
                t = t.args[1] if self.v.boolean(t.args[0]) else t.args[2]
            except Skip:
                break
        return out

    def args_match(self, s, i):
        if len(s.args) != len(i.args):
            return False
        return all((self.ident(a, b) if isinstance(a, T) and isinstance(b, T) else a == b)
                   for a, b in zip(s.args, i.args))

    def same_op(self, s, i):
        op = s.op
        if op in ("var", "bv", "lv", "sym", "field", "ext", "fn", "dtype", "nttype", "clsref", "modref"):
            if op in ("fn", "clsref"):
                if i.args[0].split(":")[-1].startswith("_"):
                    return Diff(UNKNOWN, s, i, "different function object")
            return Diff(DIFFERENT, s, i, "different quantity used")
        if op in ("bitand", "bitor", "set"):
            return self.multiset(s, i)
        if op == "dict":
            return self.dicts(s, i)
        if op == "store":
            d = self.stores(s, i)
            if d is not None:
                return d
        if op in ("fix", "wfix"):
            return self.fixes(s, i)
        if op == "listcomp":
            return self.comps(s, i)
        if op == "lam":
            return self.lams(s, i)
        if op == "concat":
            return self.seqs(s, i)
        if op == "select" and not self.same(s.args[0], i.args[0]) and not self.same(s.args[1], i.args[1]):
            if not (plain(s) and plain(i) and not sliced(s) and not sliced(i)):
                return Diff(UNKNOWN, s, i, "array and index both differ")
        ks = [a for a in s.args if isinstance(a, T) and a.op == "kv"]
        ki = [a for a in i.args if isinstance(a, T) and a.op == "kv"]
        ps = [a for a in s.args if not (isinstance(a, T) and a.op == "kv")]
        pi = [a for a in i.args if not (isinstance(a, T) and a.op == "kv")]
        if len(ps) != len(pi):
            if op in ("list", "tuple", "and", "or"):
                if op == "tuple" and len(ps) and len(pi):
                    return Diff(DIFFERENT, s, i, "number of components differs")
                return Diff(UNKNOWN, s, i, "number of elements differs")
            return Diff(UNKNOWN, s, i, "argument count differs")
        unk = None
        for a, b in zip(ps, pi):
            if isinstance(a, T) and isinstance(b, T):
                if a is b or self.same(a, b):
                    continue
                d = self.blame(a, b)
                if d.kind == DIFFERENT:
                    return d
                unk = unk or d
            elif a != b:
                return Diff(UNKNOWN, s, i, "primitive argument differs")
        if ks or ki:
            ds = {a.args[0]: a.args[1] for a in ks}
            di = {a.args[0]: a.args[1] for a in ki}
            for k in ds:
                if k not in di:
                    d = Diff(DIFFERENT if op != "nt" else UNKNOWN, s, i, "argument %s dropped" % tm.show(k))
                    return d
                if not self.same(ds[k], di[k]):
                    d = self.blame(ds[k], di[k])
                    if d.kind == DIFFERENT:
                        return d
                    unk = unk or d
            for k in di:
                if k not in ds:
                    return Diff(DIFFERENT if op not in ("nt", "obj") and not op.startswith("m.") else UNKNOWN, s, i,
                                "extra argument %s" % tm.show(k))
        return unk or Diff(UNKNOWN, s, i, "difference not localised")

    def seqs(self, s, i):
        if len(s.args) == len(i.args):
            unk = None
            for a, b in zip(s.args, i.args):
                if not self.same(a, b):
                    d = self.blame(a, b)
                    if d.kind == DIFFERENT:
                        return d
                    unk = unk or d
            if unk:
                return unk
        return Diff(UNKNOWN, s, i, "sequences differ in shape")

    def multiset(self, s, i):
        vi = [self.key(a) for a in i.args]
        vs = [self.key(a) for a in s.args]
        us = [a for a, v in zip(s.args, vs) if v not in vi]
        ui = [a for a, v in zip(i.args, vi) if v not in vs]
        if len(us) == 1 and len(ui) == 1:
            return self.blame(us[0], ui[0])
        if us and not ui:
            return Diff(DIFFERENT, s, i, "operand dropped: " + tm.show(us[0]))
        return Diff(UNKNOWN, s, i, "operands differ")

    def dicts(self, s, i):
        ds = {a.args[0]: a.args[1] for a in s.args}
        di = {a.args[0]: a.args[1] for a in i.args}
        unk = None
        if all(tm.is_const(k) for k in list(ds) + list(di)):
            for k in ds:
                if k not in di:
                    return Diff(DIFFERENT, k, None, "table entry missing")
            for k in di:
                if k not in ds:
                    return Diff(DIFFERENT, None, k, "table entry added")
            for k in ds:
                if not self.same(ds[k], di[k]):
                    d = self.blame(ds[k], di[k])
                    if d.kind == DIFFERENT:
                        d.why += " (entry %s)" % tm.show(k)
                        return d
                    unk = unk or d
        return unk or Diff(UNKNOWN, s, i, "tables not comparable")

    def chain(self, t):
        out = []
        while t.op == "store":
            out.append((t.args[1], t.args[2]))
            t = t.args[0]
        return t, out[::-1]

    def stores(self, s, i):
        bs, cs = self.chain(s)
        bi, ci = self.chain(i)
        if len(cs) != len(ci):
            vs = {self.key(k): (k, v) for k, v in cs}
            vi = {self.key(k): (k, v) for k, v in ci}
            if self.ident(bs, bi):
                miss = [k for k in vs if k not in vi]
                extra = [k for k in vi if k not in vs]
                if miss and not extra and all(k.op in ("field", "const") for k, _ in cs + ci):
                    return Diff(DIFFERENT, vs[miss[0]][0], None, "a required write is missing")
                if extra and not miss and all(k.op in ("field", "const") for k, _ in cs + ci):
                    k, v = vi[extra[0]]
                    return Diff(DIFFERENT, None, k, "an additional write")
            return Diff(UNKNOWN, s, i, "number of writes differs (%d/%d)" % (len(cs), len(ci)))
        unk = None
        if not self.same(bs, bi):
            d = self.blame(bs, bi)
            if d.kind == DIFFERENT:
                return d
            unk = d
        for (k1, v1), (k2, v2) in zip(cs, ci):
            for a, b in ((k1, k2), (v1, v2)):
                if not self.same(a, b):
                    d = self.blame(a, b)
                    if d.kind == DIFFERENT:
                        return d
                    unk = unk or d
        return unk or Diff(UNKNOWN, s, i, "writes not localised")

    def fixes(self, s, i):
        cs, is_, us, ss, hs = self.v.loop_parts(s)
        ci, ii, ui, si, hi = self.v.loop_parts(i)
        unk = None
        span = None
        nb0 = self.nb
        if cs is not None and not self.same(cs, ci):
            if len(us) == len(ui):
                d = self.blame(cs, ci)
                if d.kind == DIFFERENT:
                    d.why = "loop range: " + d.why
                    span = d
                else:
                    unk = d
            else:
                return Diff(UNKNOWN, s, i, "loop structure differs")
        if len(us) != len(ui):
            if not self.v.unroll:
                return Diff(UNKNOWN, s, i, "loop structure differs")
            # only credible once the bounded unrollings disagree
            if self.same(s, i):
                return Diff(UNKNOWN, s, i, "loop structure differs")
        # align the carried variables
        n = len(us)
        n2 = len(ui)
        c1, t1, l1 = self.v.loop_colours(s)
        c2, t2, l2 = self.v.loop_colours(i)
        m = {0: 0}
        free = set(range(1, n2))
        for k in range(1, n):
            z = [j for j in sorted(free) if c2[j] == c1[k]]
            if z:
                m[k] = z[0]
                free.discard(z[0])
        rest = [k for k in range(1, n) if k not in m]
        amb = False
        for k in rest:
            z = [j for j in sorted(free) if _same(l2[j], l1[k])]
            if not z:
                z = sorted(free) if len(rest) == 1 else []
            if not z:
                continue
            if len(z) > 1:
                amb = True
            # prefer the candidate with the most similar update
            z.sort(key=lambda j: (ui[j].op != us[k].op, j))
            m[k] = z[0]
            free.discard(z[0])
        if len(m) != n and n == n2:
            return Diff(UNKNOWN, s, i, "carried values not aligned")
        self.nb += 1
        H = 100000 + self.nb
        ms = {tm.raw("bv", hs, k): tm.raw("bv", H, k) for k in range(n + 1)}
        mi = {tm.raw("bv", hi, 0): tm.raw("bv", H, 0)}
        for k, j in m.items():
            mi[tm.raw("bv", hi, j + 1)] = tm.raw("bv", H, k + 1)
        for z, j in enumerate(sorted(free)):
            mi[tm.raw("bv", hi, j + 1)] = tm.raw("bv", H, n + 1 + z)
        for k in sorted(m):
            a, b = is_[k], ii[m[k]]
            if not self.same(a, b):
                if span is not None:
                    return span
                d = self.blame(a, b)
                if d.kind == DIFFERENT and not amb:
                    d.why = "loop initial value: " + d.why
                    return d
                unk = unk or d
        env = {tm.raw("bv", H, 0): Fraction(h64("it", self.v.seed, self.nb) % 11)}
        l1 = list(l1) + [l2[j] for j in sorted(free)]
        for k in range(len(l1)):
            env[tm.raw("bv", H, k + 1)] = bound_value(l1[k], h64(k), self.v.seed)
        saved, sseen = self.v, self.seen
        memo_s, memo_i = {}, {}
        pairs = [(us[k], ui[m[k]]) for k in sorted(m)] + [(ss, si)]
        pairs = [(tm.subst(a, ms, memo_s), tm.subst(b, mi, memo_i)) for a, b in pairs]
        ctr = 0
        try:
            for r in range(6):
                if r:
                    env = {kk: bound_value(l1[kk.args[1] - 1] if kk.args[1] else Fraction(1), h64(r, kk.args[1]), saved.seed)
                           for kk in env}
                self.v = saved.bind(env)
                self.seen = {}
                for a, b in pairs:
                    if a is b or self.same(a, b):
                        continue
                    if span is not None:
                        # not the same loop over another range: credible only
                        # once the bounded unrollings disagree
                        return span
                    d = self.blame(a, b)
                    if d.kind == DIFFERENT and not amb:
                        return d
                    unk = unk or d
        finally:
            self.v, self.seen = saved, sseen
        if span is not None:
            self.nb = nb0
            return span
        a, b = pairs[-1]
        if self.v.unroll and not amb and unk is not None and a is not b and len(m) == n == n2 and all(x is y for x, y in pairs[:-1]) \
                and all(x is y for x, y in ((is_[k], ii[m[k]]) for k in m)) and not self.same(s, i):
            # the very same loop but for when it is left, in terms the required one uses
            known = set()
            for x, y in pairs:
                known.update(tm.walk(x))
            if all(x in known or x.op in ("const", "not", "and", "or") for x in tm.walk(b)):
                return Diff(DIFFERENT, a, b, "the loop is left at another moment")
        return unk or Diff(UNKNOWN, s, i, "loop difference not localised")

    def comps(self, s, i):
        unk = None
        if not self.same(s.args[0], i.args[0]):
            d = self.blame(s.args[0], i.args[0])
            if d.kind == DIFFERENT:
                d.why = "number of elements: " + d.why
                return d
            unk = d
        self.nb += 1
        H = 100000 + self.nb
        hs, hi = int(s.args[3].args[1]), int(i.args[3].args[1])
        z = tm.raw("bv", H, 0)
        pairs = [(tm.subst(s.args[k], {tm.raw("bv", hs, 0): z}), tm.subst(i.args[k], {tm.raw("bv", hi, 0): z}))
                 for k in (2, 1)]
        saved, sseen = self.v, self.seen
        try:
            for r in range(6):
                self.v = saved.bind({z: Fraction(r if r < 2 else h64("idx", saved.seed, self.nb, r) % 11)})
                self.seen = {}
                for a, b in pairs:
                    if a is b or self.same(a, b):
                        continue
                    d = self.blame(a, b)
                    if d.kind == DIFFERENT:
                        return d
                    unk = unk or d
        finally:
            self.v, self.seen = saved, sseen
        return unk or Diff(UNKNOWN, s, i, "element difference not localised")

    def lams(self, s, i):
        hs, hi, n, n2 = (int(x.args[1]) for x in (s.args[1], i.args[1], s.args[2], i.args[2]))
        if n != n2:
            return Diff(UNKNOWN, s, i, "number of function parameters differs")
        self.nb += 1
        H = 100000 + self.nb
        a = tm.subst(s.args[0], {tm.raw("bv", hs, k): tm.raw("bv", H, k) for k in range(n)})
        b = tm.subst(i.args[0], {tm.raw("bv", hi, k): tm.raw("bv", H, k) for k in range(n)})
        saved, sseen = self.v, self.seen
        unk = None
        try:
            for r in range(4):
                self.v = saved.bind({tm.raw("bv", H, k): Fraction(h64("lam", saved.seed, self.nb, k, r) % 4001 - 1400, 128)
                                     for k in range(n)})
                self.seen = {}
                if a is b or self.same(a, b):
                    continue
                d = self.blame(a, b)
                if d.kind == DIFFERENT:
                    return d
                unk = unk or d
        finally:
            self.v, self.seen = saved, sseen
        return unk or Diff(UNKNOWN, s, i, "function difference not localised")

    def arith(self, s, i):
        as_, ai = self.atoms(s), self.atoms(i)
        vs = {}
        for t in as_:
            vs.setdefault(self.key(t), t)
        vi = {}
        for t in ai:
            vi.setdefault(self.key(t), t)
        us = [t for k, t in vs.items() if k not in vi]
        ui = [t for k, t in vi.items() if k not in vs]
        if not ui and not us:
            if s.op in ("and", "or") and i.op in ("and", "or") or True:
                return Diff(DIFFERENT, s, i, "the formula differs")
        if not ui:
            return Diff(DIFFERENT, s, i, "the formula no longer depends on " + tm.show(us[0], 4))
        leafy = ("var", "bv", "sym")
        if not us:
            if all(plain(t) for t in ui):
                return Diff(DIFFERENT, s, i, "the formula additionally depends on " + tm.show(ui[0], 4))
            d = self.wrapper(s, i)
            if d.kind == DIFFERENT:
                return d
            return Diff(UNKNOWN, s, i, "new opaque operand " + tm.show(ui[0], 4))
        # pair unmatched atoms by head
        by_s, by_i = {}, {}
        for t in us:
            by_s.setdefault(head(t), []).append(t)
        for t in ui:
            by_i.setdefault(head(t), []).append(t)
        unk = None
        cand = []
        for hd in by_s:
            if hd in by_i and len(by_s[hd]) == len(by_i[hd]):
                pairs = zip(by_s[hd], by_i[hd])
                if len(by_s[hd]) > 1:
                    pairs = self.pair_up(sorted(by_s[hd], key=tm.skey), sorted(by_i[hd], key=tm.skey))
                for a, b in pairs:
                    if self.same(a, b):
                        continue
                    d = self.blame(a, b)
                    if d.kind == DIFFERENT and len(by_s[hd]) <= 2:
                        cand.append((a, b, d))
                    unk = unk or d
        if len(us) == 1 and len(ui) == 1:
            a, b = us[0], ui[0]
            if plain(a) and plain(b):
                return Diff(DIFFERENT, s, i, "uses %s where %s is required" % (tm.show(b, 4), tm.show(a, 4)))
            d = self.blame(a, b)
            if d.kind == DIFFERENT and not self.explains(s, i, as_, [(a, b)]):
                return Diff(UNKNOWN, s, i, "formula and operand both differ: " + d.why)
            return d
        if cand:
            if self.explains(s, i, as_, [(a, b) for a, b, d in cand]):
                return cand[0][2]
            unk = Diff(UNKNOWN, s, i, "formula and operands both differ: " + cand[0][2].why)
        fs = [(a, b) for a in us for b in ui if a.op == b.op == "select" and a.args[1].op == b.args[1].op == "field"
              and a.args[1] is not b.args[1] and self.ident(a.args[0], b.args[0])]
        if len(fs) == len(us) == len(ui) and self.explains(s, i, as_, fs):
            a, b = fs[0]
            return Diff(DIFFERENT, s, i, "uses %s where %s is required" % (tm.show(b, 4), tm.show(a, 4)))
        if all(plain(t) for t in us + ui) :
            return Diff(DIFFERENT, s, i, "the formula uses %s where %s is required" % (tm.show(ui[0], 4), tm.show(us[0], 4)))
        return unk or Diff(UNKNOWN, s, i, "operands not comparable: %s / %s" % (tm.show(us[0], 3), tm.show(ui[0], 3)))

    def pair_up(self, us, ui):
        """the most similar operands first"""
        def score(a, b):
            n = sum(1 for x, y in zip(a.args, b.args) if x is y or isinstance(x, T) and isinstance(y, T) and x.op != "lam" and y.op != "lam" and self.ident(x, y))
            return (n, len(a.args) == len(b.args))
        us, ui = list(us), list(ui)
        out = []
        while us and ui:
            a, b = max(((a, b) for a in us for b in ui), key=lambda p: (score(*p), -us.index(p[0]), -ui.index(p[1]), ))
            us.remove(a)
            ui.remove(b)
            out.append((a, b))
        return out

    def explains(self, s, i, atoms, pairs):
        """is s with the atoms a replaced by b worth the same as i?  (otherwise
        the difference may be compensated by the surrounding formula)"""
        env = {}
        v = self.v
        while v is not None:
            for k, x in v.env.items():
                env.setdefault(k, x)
            v = v.parent
        c = Valuation(self.v.seed, self.v.doms, self.v.pools, None, env, self.v.unroll, self.v.coarse)
        c.nest = self.v.nest
        for t in atoms:
            x = self.val(t)
            if not (isinstance(x, tuple) and x and x[0] == "skip"):
                c.memo[t] = x
        for a, b in pairs:
            x = self.val(b)
            if isinstance(x, tuple) and x and x[0] == "skip":
                return False
            c.memo[a] = x
        try:
            return _same(c.ev(s), self.val(i))
        except Skip:
            return False

    def wrapper(self, s, i):
        """one side is the other under one extra known operation"""
        for outer, inner, what in ((s, i, "dropped"), (i, s, "added")):
            if outer.op in NONIDENT:
                for a in outer.args[:1]:
                    if isinstance(a, T) and self.ident(a, inner):
                        return Diff(DIFFERENT, s, i, "operation %s %s" % (outer.op, what))
            if outer.op == "select" and outer.args[1].op == "slice" and outer.args[0].op in ("np.sort", "sorted", "np.unique") \
                    and self.ident(outer.args[0].args[0], inner):
                return Diff(DIFFERENT, s, i, "operation %s %s" % (outer.args[0].op, what))
        return Diff(UNKNOWN, s, i, "different constructs (%s / %s)" % (s.op, i.op))


_words = {}
NOWORD = INTERP | {"tuple", "list", "kv", "slice", "const", "var", "bv", "lv", "dict", "bitand", "bitor", "append",
                   "store", "concat", "fix", "listcomp", "bigsum", "lam", "np.nonzero", "len", "rangelen", "ziplen", "raises", "digest"}


def words(t):
    r = _words.get(t)
    if r is None:
        r = set()
        if t.op == "select":
            if t.args[1].op == "field":
                r.add("." + t.args[1].args[0])
        elif t.op == "kv" and t.args[0].op == "field":
            r.add("=" + t.args[0].args[0])
        elif t.op in ("field",):
            pass
        elif t.op in ("sym", "ext", "fn", "clsref", "modref", "dtype", "nttype"):
            r.add((t.op,) + tuple(t.args))
        elif t.op not in NOWORD:
            r.add(t.op)
        elif t.op == "dict" and any(a.op != "kv" for a in t.args):
            r.add("dict()")
        for a in t.args:
            if isinstance(a, T):
                r |= words(a)
        r = frozenset(r)
        _words[t] = r
    return r


def nonscalar(i):
    if i.op in ("slice", "lt", "le", "eq", "ne", "np.nonzero", "bitand", "bitor", "np.invert", "np.isnan", "np.isfinite"):
        return True
    if i.op == "tuple":
        return any(nonscalar(x) for x in i.args)
    if i.op == "select":
        return nonscalar(i.args[0])
    return False


_loops = {}


def has_loop(t):
    r = _loops.get(t)
    if r is None:
        r = t.op in ("fix", "wfix", "listcomp", "bigsum") or any(isinstance(a, T) and has_loop(a) for a in t.args)
        _loops[t] = r
    return r


def as_fix(t):
    if t.op == "fix":
        return t
    cnt, el, c, h = t.args
    h1 = int(h.args[1])
    acc = tm.raw("bv", h1, 1)
    upd = tm.ite(c, tm.raw("append", acc, el), acc)
    return tm.raw("fix", cnt, tm.raw("tuple", tm.raw("list")), tm.raw("lam", upd, tm.FALSE), h)


def head(t):
    if t.op == "select":
        if t.args[1].op == "field":
            return ("attr", t.args[1].args[0])
        return ("select", head(t.args[0]))
    return t.op


def sliced(t):
    while t.op == "select":
        if t.args[1].op in ("slice", "tuple"):
            return True
        t = t.args[0]
    return False


def plain(t):
    """a leaf, or an element / attribute of a leaf"""
    while t.op == "select":
        i = t.args[1]
        if not (i.op in ("const", "field", "bv", "var", "add", "slice", "tuple", "mul")):
            return False
        t = t.args[0]
    if t.op == "len":
        return plain(t.args[0])
    return t.op in ("var", "bv", "sym")
