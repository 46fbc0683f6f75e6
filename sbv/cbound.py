"""Memory bounds and array requirements of the C extension.

An abstract interpretation of every exported function (local callees entered):
integers are polynomials in the extents of the arguments, in the loop counters
and in the scaled indices int(x*n) of data known to lie in [0, 1); pointers are
(block, byte offset polynomial).  Loop-carried pointers and counters are solved
as linear functions of the iteration number.  For every access the obligation
is 0 <= offset and offset + size <= extent of the block for all values of the
symbols allowed by the loop ranges and the conditions on the way.

A violated obligation is reported with values that break it; one that can be
neither proved nor refuted is undecided.  Arrays whose data pointer is taken
must have been required contiguous, of the element type they are accessed as,
and writeable if they are written.
"""
from __future__ import annotations

import itertools
import random
import re

from .cfront import PARSE, dims_of
from .props import Finding

SIZES = {"double": 8, "float": 4, "unsigned long": 8, "long": 8, "int": 4, "unsigned int": 4, "npy_intp": 8, "size_t": 8, "char": 1,
         "unsigned char": 1, "short": 2, "long long": 8, "unsigned long long": 8, "npy_double": 8, "long int": 8}
NPY = {"NPY_BYTE": ("i", 1), "NPY_UBYTE": ("i", 1), "NPY_SHORT": ("i", 2), "NPY_USHORT": ("i", 2), "NPY_INT": ("i", 4), "NPY_UINT": ("i", 4),
       "NPY_LONG": ("i", 8), "NPY_ULONG": ("i", 8), "NPY_LONGLONG": ("i", 8), "NPY_ULONGLONG": ("i", 8), "NPY_FLOAT": ("f", 4),
       "NPY_DOUBLE": ("f", 8), "NPY_BOOL": ("i", 1)}
UNSIGNED = ("unsigned long", "unsigned int", "size_t", "unsigned long long")
INTS = ("unsigned long", "long", "int", "unsigned int", "npy_intp", "size_t", "long int", "long long", "unsigned long long", "short")


RECORDS = {}


class Give(Exception):
    pass


# ---------------------------------------------------------------- polynomials
def C(n):
    return {(): n} if n else {}


def S(s):
    return {(s,): 1}


def add(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + f * c
        if not r[m]:
            del r[m]
    return r


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def syms(p):
    return {s for m in p for s in m}


def fsyms(f):
    return {x for side in f[1] for g in side for x in fsyms(g)} if f[0] == "or" else syms(f[1])


def holds(f, env):
    if f[0] == "or":
        return any(all(holds(g, env) for g in side) for side in f[1])
    v = value(f[1], env)
    return v >= 0 if f[0] == ">=" else v == 0 if f[0] == "==" else v != 0


def subst(p, s, q):
    r = {}
    for m, c in p.items():
        t = C(c)
        for x in m:
            t = mul(t, q if x == s else S(x))
        r = add(r, t)
    return r


def value(p, env):
    t = 0
    for m, c in p.items():
        for x in m:
            c = c * env[x]
        t += c
    return t


def const(p):
    return p.get((), 0) if all(m == () for m in p) else None


def show(p):
    if not p:
        return "0"
    return " + ".join("*".join(([str(c)] if c != 1 or not m else []) + list(m)) for m, c in sorted(p.items()))


class Block:
    serial = 0

    def __init__(self, name, bytes_, line, kind="memory", dtype=None, flags=None, own=True):
        Block.serial += 1
        self.serial = Block.serial
        self.name, self.bytes, self.line, self.kind, self.dtype, self.flags, self.own = name, bytes_, line, kind, dtype, flags, own
        self.table = None


class Ptr:
    __slots__ = ("block", "off")

    def __init__(self, block, off):
        self.block, self.off = block, off

    def same(self, o):
        return isinstance(o, Ptr) and o.block is self.block and o.off == self.off


class Arr:
    """a numpy array object"""
    def __init__(self, name, dims, size, dtype, flags, line, fresh):
        self.name, self.dims, self.size, self.dtype, self.flags, self.line, self.fresh = name, dims, size, dtype, flags, line, fresh
        self.block = None


NULLP = "null"


def same(a, b):
    if isinstance(a, Ptr):
        return a.same(b)
    if isinstance(a, dict) or isinstance(b, dict):
        return a == b and isinstance(a, dict) and isinstance(b, dict)
    if isinstance(a, Alt) and isinstance(b, Alt):
        return len(a.vs) == len(b.vs) and all(any(same(x, y) for y in b.vs) for x in a.vs)
    return type(a) is type(b) and a == b if not isinstance(a, Arr) else a is b


class Alt:
    def __init__(self, vs):
        self.vs = vs


class F:
    """a floating-point value: known by its key, optionally times an integer"""
    def __init__(self, key, scale=None, parts=frozenset()):
        self.key, self.scale, self.parts = key, scale, parts or frozenset([key])

    def __eq__(self, o):
        return isinstance(o, F) and (self.key, self.scale) == (o.key, o.scale)

    def __hash__(self):
        return hash(self.key)


class Data:
    """an integer taken from data with nothing known about its range"""
    def __init__(self, keys, why):
        self.keys, self.why = keys, why

    def __eq__(self, o):
        return isinstance(o, Data) and o.keys == self.keys


def alts(v):
    return v.vs if isinstance(v, Alt) else [v]


def join(a, b):
    if same(a, b):
        return a
    if a is None or b is None:
        return None
    vs = []
    for v in alts(a) + alts(b):
        if v is None:
            return None
        if not any(same(v, w) for w in vs):
            vs.append(v)
    if len(vs) > 6:
        return None
    return Alt(vs) if len(vs) > 1 else vs[0]


class State:
    def __init__(self):
        self.env, self.facts, self.guards, self.opaque, self.dead = {}, [], set(), [], False

    def copy(self):
        s = State()
        s.env, s.facts, s.guards, s.opaque, s.dead = dict(self.env), list(self.facts), set(self.guards), list(self.opaque), self.dead
        return s


def merge(a, b):
    if a.dead:
        return b
    if b.dead:
        return a
    s = State()
    for k in set(a.env) | set(b.env):
        if k in a.env and k in b.env:
            s.env[k] = join(a.env[k], b.env[k])
        else:
            s.env[k] = a.env.get(k, b.env.get(k)) if k[0] == "$" else None
    s.facts = [f for f in a.facts if f in b.facts]
    s.guards = a.guards & b.guards
    s.opaque = [o for o in a.opaque if o in b.opaque]
    return s


def strip(e):
    while e.kind == "cast":
        e = e.kids[0]
    return e


def size_of(t):
    t = re.sub(r"\b(const|restrict|volatile)\b", "", t or "").strip()
    if t.endswith("*"):
        return C(8)
    ds = dims_of(t)
    if ds:
        n = 1
        for d in ds:
            n *= d
        b = size_of(t.split("[")[0].strip())
        return mul(C(n), b)
    if t in SIZES:
        return C(SIZES[t])
    if t in RECORDS:
        at, big = 0, 1
        for _, ft in RECORDS[t]:
            n = const(size_of(ft))
            a = const(size_of(ft.split("[")[0].strip())) if n is not None else None
            if not n or not a:
                return S("sizeof(%s)" % t)
            a = min(a, 8)
            at = -(-at // a) * a + n
            big = max(big, a)
        return C(-(-at // big) * big)
    return S("sizeof(%s)" % t)


def elem(t):
    """what a pointer of type t points to"""
    t = re.sub(r"\b(const|restrict|__restrict|volatile)\b", "", t or "").strip()
    m = re.match(r"(.*)\(\*\)(\[.*\])$", t)
    if m:
        return m.group(1).strip() + m.group(2)
    if t.endswith("*"):
        return t[:-1].strip()
    m = re.match(r"([^\[]*)\[\d*\](.*)$", t)
    if m:
        return m.group(1).strip() + m.group(2)
    return None


class Bounds:
    def __init__(self, cf, rep):
        self.cf, self.rep = cf, rep
        self.findings, self.und = {}, []
        self.n = 0
        self.rec = True
        self.ranges = {}       # iteration symbol -> trip count, in order of creation
        self.depth = 0
        self.steps = 0
        self.lb = {}
        self.before = None     # inside a parallel region: the blocks that existed before it
        self.ws = {}           # iteration symbols of work-shared loops and thread numbers
        self.wsnext = False
        self.divs = {}

    def fresh(self, s):
        self.n += 1
        return "%s#%d" % (s, self.n)

    def fail(self, rule, fn, line, what, detail=""):
        k = (rule, fn, what)
        if self.rec and k not in self.findings:
            self.findings[k] = Finding(rule, "%s/%s" % (fn, what), "%s:%s (%s)" % (self.cf.rel, line, fn), what, detail)

    # ------------------------------------------------------------- obligations
    def bounds_of(self, st):
        lb = dict(self.lb)
        nz = set()
        for kind, p in st.facts:
            if kind == ">=":
                vs = [m for m in p if m]
                if len(vs) == 1 and len(vs[0]) == 1 and p[vs[0]] > 0:
                    c = -(p.get((), 0))
                    lo = -(-c // p[vs[0]])
                    lb[vs[0][0]] = max(lb.get(vs[0][0], lo), lo)
                elif len(vs) == 1 and p[vs[0]] > 0 and p.get((), 0) < 0:
                    nz |= set(vs[0])
            elif kind == "!=":
                vs = [m for m in p if m]
                if len(vs) == 1 and not p.get((), 0):
                    nz |= set(vs[0])
        for s in nz:
            if lb.get(s) == 0:
                lb[s] = 1
        return lb

    def prove(self, p, st):
        """p >= 0 for all values of the symbols"""
        for kind, q in st.facts:
            if kind == "==":
                p = self.normal(p, st)
                break
        # eliminate iteration numbers, innermost first
        for s in reversed(list(self.ranges)):
            if s not in syms(p):
                continue
            co = {}
            ok = True
            for m, c in p.items():
                k = m.count(s)
                if k > 1:
                    ok = False
                elif k == 1:
                    m2 = list(m)
                    m2.remove(s)
                    co[tuple(m2)] = c
            if not ok:
                return False
            T = self.ranges[s]
            if all(c >= 0 for c in co.values()):
                p = subst(p, s, {})
            elif all(c <= 0 for c in co.values()) and T is not None:
                p = subst(p, s, add(T, C(-1)))
            else:
                return False
        lb = self.bounds_of(st)
        for s in list(syms(p)):
            if s.startswith("sizeof"):
                lb[s] = 1
            if s not in lb:
                return False
            p = subst(p, s, add(S(s), C(lb[s])))
        return all(c >= 0 for c in p.values())

    def normal(self, p, st):
        for _ in range(6):
            q = p
            for kind, e in st.facts:
                if kind == "==":
                    for m, c in e.items():
                        if len(m) == 1 and abs(c) == 1 and m[0] not in syms({k: v for k, v in e.items() if k != m}) and (
                                m[0].startswith(("size:", "dim:"))):
                            rest = {k: -v * c for k, v in e.items() if k != m}
                            q = subst(q, m[0], rest)
                            break
            if q == p:
                break
            p = q
        return p

    def fnormal(self, f, st):
        return ("or", [[self.fnormal(g, st) for g in side] for side in f[1]]) if f[0] == "or" else (f[0], self.normal(f[1], st))

    def witness(self, p, st):
        """values of the symbols with p < 0"""
        p = self.normal(p, st)
        facts = [self.fnormal(f, st) for f in st.facts]
        lb = self.bounds_of(st)
        need = set(syms(p))
        while True:
            more = set(need)
            for f in facts:
                if fsyms(f) & need:
                    more |= fsyms(f)
            for s in need & set(self.ranges):
                if self.ranges[s] is None:
                    return None
                more |= syms(self.normal(self.ranges[s], st))
            if more == need:
                break
            need = more
        for o in st.opaque:
            if o & need:
                return None
        free = [s for s in need if s not in self.ranges]
        rng = random.Random(7)
        for i in range(4000):
            env = {}
            for s in free:
                lo = lb.get(s, 0)
                hi = 3 if i < 2000 else 7
                env[s] = 8 if s.startswith("sizeof") else rng.randint(lo, lo + hi) if s in lb else rng.randint(-hi, hi)
            ok = True
            for s in self.ranges:
                if s in need:
                    T = value(self.normal(self.ranges[s], st), env)
                    if T < 1:
                        ok = False
                        break
                    env[s] = rng.choice([0, T - 1, rng.randint(0, T - 1)])
            if not ok:
                continue
            for f in facts:
                if fsyms(f) <= need and not holds(f, env):
                    ok = False
                    break
            if ok and value(p, env) < 0:
                return {self.pretty(s): v for s, v in env.items() if not s.startswith("sizeof")}
        return None

    def pretty(self, s):
        return s.split("#")[0]

    def access(self, v, t, e, st, write, fn):
        if not self.rec:
            return
        if isinstance(v, Alt):
            for x in v.vs:
                self.access(x, t, e, st, write, fn)
            return
        if v == NULLP:
            return       # decided by the ownership analysis
        if not isinstance(v, Ptr):
            if isinstance(v, tuple) and v[0] == "dataptr":
                self.obl()
                d = v[1]
                if not any(o & d.keys for o in st.opaque):
                    self.fail("bounds", fn, e.line, "an element of %s is chosen by data whose range is not checked (%s)" % (v[2].name, d.why))
                else:
                    self.und.append("%s:%s index from data under a condition that was not understood" % (fn, e.line))
                return
            self.obl()
            self.und.append("%s:%s access through a pointer that could not be followed" % (fn, e.line))
            return
        self.obl()
        b = v.block
        if write and b.kind == "array" and not b.own and not (b.flags or 0) & 0x400:
            self.fail("writeable", fn, e.line, "%s is written although it was not required to be writeable" % b.name)
        if write:
            self.apart(v, t, e, st, fn)
        if b.bytes is None:
            self.und.append("%s:%s extent of %s unknown" % (fn, e.line, b.name))
            return
        for p, side in ((v.off, "before the start"), (add(add(b.bytes, v.off, -1), size_of(t), -1), "past the end")):
            if self.prove(p, st):
                self.rep.count("bounds_proved")
                continue
            w = self.witness(p, st)
            if w is not None:
                self.fail("bounds", fn, e.line, "%s %s %s" % ("writes" if write else "reads", side, "of " + b.name),
                          "offset %s, extent %s bytes; e.g. %s" % (show(v.off), show(b.bytes), ", ".join("%s=%s" % x for x in sorted(w.items()))))
            else:
                self.und.append("%s:%s %s: %s not shown to be >= 0" % (fn, e.line, b.name, show(p)))

    def apart(self, v, t, e, st, fn):
        """a write inside a parallel region to memory from outside it: the
        elements of different iterations (threads) must not overlap"""
        b = v.block
        if self.before is None or b.serial > self.before:
            return
        worst = None
        for s, what in self.ws.items():
            k = {}
            for m, c in v.off.items():
                if m.count(s) == 1:
                    m2 = list(m)
                    m2.remove(s)
                    k[tuple(m2)] = c
                elif s in m:
                    k = None
                    break
            if not k:
                continue
            self.rep.count("separations_checked")
            first = mul(S(s), k)
            lo = add(v.off, first, -1)
            hi = add(add(add(first, k), v.off, -1), size_of(t), -1)
            if self.prove(lo, st) and self.prove(hi, st):
                return
            w = self.witness(hi, st)
            if w is not None:
                worst = (what, show(k), w)
        if worst is not None:
            self.fail("race", fn, e.line, "different %s write the same elements of %s" % (worst[0], b.name),
                      "offset %s, step %s bytes; e.g. %s" % (show(v.off), worst[1], ", ".join("%s=%s" % x for x in sorted(worst[2].items()))))

    def obl(self):
        self.rep.count("obligations")

    # ------------------------------------------------------------- functions
    def entry(self, fn):
        st = State()
        self.call_body(fn, [None] * len(fn.extra), st)

    def call_body(self, fn, args, st):
        rets = self.call_rets(fn, args, st)
        if not rets:
            st2 = st.copy()
            st2.dead = True
            return st2, None
        s, v = rets[0]
        for s2, v2 in rets[1:]:
            v = join(v, v2)
            s = merge(s, s2)
        return s, v

    def call_rets(self, fn, args, st):
        self.depth += 1
        if self.depth > 12:
            raise Give("recursion")
        fr = "%s#%d" % (fn.name, self.n)
        self.n += 1
        old = getattr(self, "frame", None), getattr(self, "fname", None), getattr(self, "rets", None), getattr(self, "conts", None)
        self.frame, self.fname, self.rets, self.conts = fr, fn.name, [], None
        for (p, t), a in zip(fn.extra, args):
            st.env[(fr, p)] = a
        out = self.block(fn.kids[0].kids, st)
        rets = self.rets
        self.frame, self.fname, self.rets, self.conts = old
        self.depth -= 1
        if not out.dead:
            rets = rets + [(out, None)]
        return rets

    def key(self, n):
        return (self.frame, n)

    # ------------------------------------------------------------- statements
    def block(self, ss, st):
        for s in ss:
            if st.dead:
                return st
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > 60000:
            raise Give("too many steps")
        if s is None:
            return st
        k = s.kind
        if k == "block" or k == "label":
            return self.block(s.kids, st)
        if k == "null":
            return st
        if k == "decls":
            for d in s.kids:
                st = self.declare(d, st)
            return st
        if k == "expr":
            self.ev(s.kids[0], st)
            return st
        if k == "if":
            return self.branch(s, st)
        if k == "for":
            if s.kids[0] is not None:
                st = self.stmt(s.kids[0], st)
            return self.loop(s, s.kids[1], s.kids[3], s.kids[2], st)
        if k == "while":
            return self.loop(s, s.kids[0], s.kids[1], None, st)
        if k == "do":
            return self.loop(s, None, s.kids[0], None, st)
        if k == "return":
            v = self.ev(s.kids[0], st) if s.kids else None
            self.rets.append((st.copy(), v))
            st.dead = True
            return st
        if k == "goto":
            st.dead = True
            return st
        if k in ("continue", "break"):
            if self.conts is not None:
                self.conts.append((k, st.copy()))
            st.dead = True
            return st
        if k == "omp":
            body = s.kids[0] if s.kids else None
            was = self.before
            if "Parallel" in s.op and was is None:
                self.before = Block.serial
            self.wsnext = "For" in s.op and self.before is not None and body is not None and body.kind == "for"
            try:
                return self.stmt(body, st)
            finally:
                self.before = was
                self.wsnext = False
        raise Give(k)

    def declare(self, d, st):
        t = d.type or ""
        if dims_of(t) and d.extra != "static":
            b = Block(d.name, size_of(t), d.line, "local")
            st.env[self.key(d.name)] = Ptr(b, {})
            if d.kids and d.kids[0].kind == "init":
                w = size_of(t.split("[")[0].strip())
                if len(dims_of(t)) == 1:
                    for i, x in enumerate(d.kids[0].kids):
                        st.env[(b, self.okey(mul(C(i), w)))] = self.ev(x, st)
            return st
        if d.kids and d.extra != "static":
            st.env[self.key(d.name)] = self.coerce(self.ev(d.kids[0], st), t, d.name)
        else:
            st.env[self.key(d.name)] = ("structvar", self.frame + "." + d.name) if t in self.cf.records and "*" not in t else None
        return st

    def okey(self, off):
        return tuple(sorted(off.items()))

    def coerce(self, v, t, name):
        """what a variable of type t holds after v is stored in it"""
        t = t.replace("const ", "").strip()
        if t in ("double", "float"):
            if isinstance(v, F) and v.scale is None:
                return v
            if isinstance(v, F):
                return v
            if isinstance(v, dict):
                return v
            return F(self.fresh(name))
        if t in INTS and isinstance(v, F):
            return self.trunc(v)
        if "*" in t and isinstance(v, dict) and const(v) == 0:
            return NULLP
        return v

    def trunc(self, v):
        return ("trunc", v)

    def branch(self, s, st):
        self.ev_accesses(s.kids[0], st)
        c = self.truth(s.kids[0], st)
        if c is True:
            return self.stmt(s.kids[1], st)
        if c is False:
            return self.stmt(s.kids[2], st)
        a, b = st.copy(), st.copy()
        self.assume(s.kids[0], a, True)
        self.assume(s.kids[0], b, False)
        a = self.stmt(s.kids[1], a)
        b = self.stmt(s.kids[2], b)
        if a.dead and b.dead:
            return a
        return merge(a, b)

    def truth(self, e, st):
        e = strip(e)
        if e.kind == "unary" and e.op == "!":
            v = self.truth(e.kids[0], st)
            return None if v is None else not v
        if e.kind == "binary" and e.op in ("&&", "||"):
            a, b = self.truth(e.kids[0], st), self.truth(e.kids[1], st)
            if e.op == "&&":
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        if e.kind == "binary" and e.op in ("==", "!=") and "*" in (strip(e.kids[0]).type or "") + (strip(e.kids[1]).type or ""):
            a, b = self.quiet(e.kids[0], st), self.quiet(e.kids[1], st)
            a = NULLP if isinstance(a, dict) and const(a) == 0 else a
            b = NULLP if isinstance(b, dict) and const(b) == 0 else b
            if a == NULLP and b == NULLP:
                return e.op == "=="
            if (a == NULLP and isinstance(b, (Ptr, Arr))) or (b == NULLP and isinstance(a, (Ptr, Arr))):
                return e.op == "!="
        if e.kind == "binary" and e.op in ("<", "<=", ">", ">=", "==", "!="):
            a, b = self.quiet(e.kids[0], st), self.quiet(e.kids[1], st)
            if isinstance(a, dict) and isinstance(b, dict):
                d = const(add(a, b, -1))
                if d is not None:
                    return {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[e.op]
        if e.kind == "binary" and e.op in ("<", "<=", ">", ">=", "==", "!="):
            return None
        v = self.quiet(e, st)
        if isinstance(v, dict) and const(v) is not None:
            return bool(const(v))
        if isinstance(v, (Ptr, Arr)):
            return True
        if v == NULLP:
            return False
        return None

    def quiet(self, e, st):
        """value without recording accesses or keeping effects"""
        rec, self.rec = self.rec, False
        try:
            return self.ev(e, st.copy())
        finally:
            self.rec = rec

    def ev_accesses(self, e, st):
        self.ev(e, st)

    def assume(self, e, st, yes):
        e = strip(e)
        if e.kind == "unary" and e.op == "!":
            return self.assume(e.kids[0], st, not yes)
        if e.kind == "binary" and e.op in ("&&", "||"):
            if (e.op == "&&") == yes:
                self.assume(e.kids[0], st, yes)
                self.assume(e.kids[1], st, yes)
                return
            # one side or the other
            sides = []
            for i in (0, 1):
                a = st.copy()
                if i:
                    self.assume(e.kids[0], a, not yes)
                self.assume(e.kids[i], a, yes)
                if len(a.opaque) > len(st.opaque) or a.guards != st.guards:
                    return self.opaque(e, st)
                sides.append([f for f in a.facts if f not in st.facts])
            if all(sides):
                st.facts.append(("or", sides))
            return
        if e.kind == "call" and (e.name in PARSE or (e.name or "").startswith(("PyErr", "Py_", "PyArray_"))):
            return
        if e.kind == "call" and e.name in self.cf.funcs:
            # a predicate: what holds where it returns true (or false)
            rec, self.rec = self.rec, False
            try:
                fn = self.cf.funcs[e.name]
                s0 = st.copy()
                rets = self.call_rets(fn, self.arguments(e, fn, s0), s0)
            finally:
                self.rec = rec
            keep = []
            for s, v in rets:
                if not isinstance(v, dict) or const(v) is None:
                    return self.opaque(e, st)
                if bool(const(v)) == yes:
                    keep.append(s)
            if keep:
                s = keep[0]
                for s2 in keep[1:]:
                    s = merge(s, s2)
                st.facts, st.guards, st.opaque = s.facts, s.guards, s.opaque
                if len(keep) > 1:
                    self.opaque(e, st)
            return
        if e.kind == "ref" and "*" in (e.type or "") or e.kind == "member" and "*" in (e.type or ""):
            k = self.lkey(e, st)
            v = st.env.get(k) if k else None
            if isinstance(v, Alt):
                vs = [x for x in v.vs if (x != NULLP) == yes]
                if vs:
                    st.env[k] = Alt(vs) if len(vs) > 1 else vs[0]
            elif v is None and k is not None and not yes:
                st.env[k] = NULLP
            return
        if e.kind == "binary" and e.op in ("==", "!=") and any("*" in (strip(x).type or "") for x in e.kids):
            o = [x for x in e.kids if not (strip(x).kind == "num" and strip(x).value == 0)]
            if len(o) == 1:
                return self.assume(o[0], st, yes == (e.op == "!="))
            return
        if e.kind == "binary" and e.op in ("<", "<=", ">", ">=", "==", "!="):
            a, b = self.quiet(e.kids[0], st), self.quiet(e.kids[1], st)
            op = e.op if yes else {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[e.op]
            if isinstance(b, F) and not isinstance(a, F):
                a, b = b, a
                op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
            if isinstance(a, F) and a.scale is None and isinstance(b, dict) and const(b) is not None:
                # the negation of a comparison also admits NaN, which is no lower or upper bound
                st.guards.add((a.key, op if yes else "~" + op, const(b)))
                return
            if isinstance(a, F) or isinstance(b, F):
                return self.opaque(e, st)
            done = True
            for x, y in itertools.product(alts(a), alts(b)):
                if not (isinstance(x, dict) and isinstance(y, dict)):
                    if isinstance(x, tuple) or isinstance(y, tuple) or x is None or y is None:
                        done = False
                    continue
                d = add(x, y, -1)
                f = {"<": (">=", add(C(-1), d, -1)), "<=": (">=", add({}, d, -1)), ">": (">=", add(d, C(-1))), ">=": (">=", d), "==": ("==", d),
                     "!=": ("!=", d)}[op]
                if f[0] == "!=" and (len(alts(a)) > 1 or len(alts(b)) > 1):
                    continue
                if f[1] and f not in st.facts:
                    st.facts.append(f)
            if not done:
                self.opaque(e, st)
            return
        v = self.quiet(e, st)
        if isinstance(v, dict):
            f = ("!=" if yes else "==", v)
            if f not in st.facts:
                st.facts.append(f)
            return
        if e.kind == "ref" and v is None:
            return
        self.opaque(e, st)

    def opaque(self, e, st):
        """a condition that restricts what it mentions in an unknown way"""
        ks = set()
        for x in e.walk():
            if x.kind in ("ref", "member", "index"):
                v = self.quiet(x, st)
                for y in alts(v):
                    if isinstance(y, dict):
                        ks |= syms(y)
                    elif isinstance(y, F):
                        ks |= set(y.parts)
                        ks.add(y.key)
                    elif isinstance(y, Arr):
                        for d in (y.dims or []) + [y.size]:
                            ks |= syms(d) if d is not None else set()
                        ks |= {x for x in self.lb if x.startswith(("dim:%s[" % y.name, "ndim:" + y.name))}
                    elif isinstance(y, Ptr):
                        for k, w in st.env.items():
                            if k[0] is y.block and isinstance(w, F):
                                ks |= set(w.parts) | {w.key}
                    elif isinstance(y, tuple) and y[0] == "trunc":
                        ks |= set(y[1].parts)
        o = frozenset(ks)
        if o and o not in st.opaque:
            st.opaque.append(o)

    # ------------------------------------------------------------- loops
    def assigned(self, s):
        out = set()
        for x in s.walk():
            if x.kind == "binary" and (x.op or "").endswith("=") and x.op not in ("==", "!=", "<=", ">="):
                y = strip(x.kids[0])
                if y.kind == "ref":
                    out.add(y.name)
            elif x.kind == "unary" and x.op in ("++", "--") and strip(x.kids[0]).kind == "ref":
                out.add(strip(x.kids[0]).name)
            elif x.kind == "unary" and x.op == "&" and strip(x.kids[0]).kind == "ref":
                out.add(strip(x.kids[0]).name)
        return out

    def loop(self, s, cond, body, inc, st):
        if inc is None and cond is not None or cond is None:
            parts = [body]
        else:
            parts = [body, inc]
        ws, self.wsnext = self.wsnext, False
        if cond is not None and not ws:
            # small constant loops are unrolled
            r = self.unrolled(cond, parts, st)
            if r is not None:
                return r
        names = set()
        for p in parts + ([cond] if cond is not None else []):
            if p is not None:
                names |= self.assigned(p)
        names = [n for n in sorted(names) if self.key(n) in st.env]
        entry = {n: st.env[self.key(n)] for n in names}
        # what the loop does to each of them in one iteration
        pr = st.copy()
        probe = {}
        self.havoc(parts, pr)
        for n in names:
            v = entry[n]
            if isinstance(v, dict):
                probe[n] = self.fresh("probe")
                pr.env[self.key(n)] = S(probe[n])
            elif isinstance(v, Ptr):
                probe[n] = self.fresh("probe")
                pr.env[self.key(n)] = Ptr(v.block, S(probe[n]))
            else:
                pr.env[self.key(n)] = None
        rec, self.rec = self.rec, False
        keep = dict(self.ranges)
        try:
            fin = self.once(parts, pr, cond)
        finally:
            self.rec = rec
            self.ranges = keep
        delta = {}
        mine = set(probe.values())
        for n in probe:
            v = fin.env.get(self.key(n))
            w = v.off if isinstance(v, Ptr) and isinstance(entry[n], Ptr) and v.block is entry[n].block else v if isinstance(v, dict) and isinstance(
                entry[n], dict) else None
            if w is not None and not fin.dead:
                d = add(w, S(probe[n]), -1)
                if not syms(d) & mine:
                    delta[n] = d
        t = self.fresh("it")
        T = self.trips(cond, entry, delta, st) if cond is not None else None
        self.ranges[t] = T
        if ws:
            self.ws[t] = "iterations"
        b = st.copy()
        self.havoc(parts, b)
        for n in names:
            b.env[self.key(n)] = self.at(entry[n], delta.get(n), S(t))
        if T is not None:
            b.facts.append((">=", add(T, C(-1))))
        if cond is not None:
            self.ev_accesses(cond, b)
            self.assume(cond, b, True)
        self.once(parts, b, None)
        if T is None and cond is not None:
            self.ranges[t] = None
        out = st.copy()
        self.havoc(parts, out)
        for n in names:
            out.env[self.key(n)] = self.at(entry[n], delta.get(n), T) if T is not None and not self.breaks(body) else (
                entry[n] if n in delta and not delta[n] else None)
        # tables filled in the loop
        for k, v in b.env.items():
            if k[0] == "$":
                out.env[k] = join(out.env[k], v) if k in out.env else v
        return out

    def breaks(self, s):
        if s.kind in ("for", "while", "do"):
            return False
        if s.kind in ("break", "goto", "return"):
            return True
        return any(self.breaks(k) for k in s.kids if k is not None)

    def at(self, v, d, t):
        if v is None or d is None or t is None:
            return None
        if isinstance(v, Ptr):
            return Ptr(v.block, add(v.off, mul(d, t)))
        if isinstance(v, dict):
            return add(v, mul(d, t))
        return None

    def havoc(self, parts, st):
        """forget the elements of local arrays the loop writes"""
        for p in parts:
            for x in (p.walk() if p is not None else ()):
                if x.kind == "binary" and (x.op or "").endswith("=") and x.op not in ("==", "!=", "<=", ">=") and strip(x.kids[0]).kind == "index":
                    y = strip(x.kids[0])
                    while y.kind in ("index", "cast"):
                        y = y.kids[0]
                    if y.kind == "ref":
                        v = st.env.get(self.key(y.name))
                        if isinstance(v, Ptr):
                            for k in [k for k in st.env if k[0] is v.block]:
                                st.env[k] = None

    def once(self, parts, st, cond):
        old = self.conts
        self.conts = []
        if cond is not None:
            self.ev(cond, st)
        st = self.stmt(parts[0], st)
        for k, c in self.conts:
            if k == "continue":
                st = merge(st, c)
        self.conts = old
        for p in parts[1:]:
            if not st.dead:
                st = self.stmt(p, st)
        return st

    def unrolled(self, cond, parts, st):
        c = strip(cond)
        if c.kind != "binary" or c.op not in ("<", "<=", ">", ">=", "!="):
            return None
        if const(self.quiet(c.kids[1], st) if isinstance(self.quiet(c.kids[1], st), dict) else S("x")) is None:
            return None
        steps, save = 0, st.copy()
        while True:
            v = self.truth(cond, st)
            if v is None:
                return None if not steps else self.bail(save)
            if not v:
                return st
            steps += 1
            if steps > 16:
                return None if not self.rec else self.bail(save)
            st = self.once(parts, st, None)
            if st.dead:
                return st

    def bail(self, st):
        raise Give("loop with constant bounds")

    def trips(self, cond, entry, delta, st):
        c = strip(cond)
        if c.kind != "binary":
            return None
        for v, o, op in ((c.kids[0], c.kids[1], c.op), (c.kids[1], c.kids[0], {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}.get(c.op))):
            v = strip(v)
            if v.kind == "ref" and v.name in delta and delta[v.name] and not self.assigned(o) and all(
                    y.name not in delta or not delta[y.name] for y in o.walk() if y.kind == "ref"):
                b = self.quiet(o, st)
                x, d = entry[v.name], delta[v.name]
                if isinstance(x, Ptr) and isinstance(b, Ptr) and b.block is x.block:
                    x, b = x.off, b.off
                if not isinstance(b, dict) or not isinstance(x, dict):
                    return None
                n = add(b, x, -1)
                step = const(d)
                if step is None or not step:
                    return None
                if op in ("<", "!=") and step > 0:
                    pass
                elif op == "<=" and step == 1:
                    n = add(n, C(1))
                elif op in (">", "!=") and step < 0:
                    n = mul(n, C(-1))
                elif op == ">=" and step == -1:
                    n = add(mul(n, C(-1)), C(1))
                else:
                    return None
                step = abs(step)
                if all(k % step == 0 for k in n.values()):
                    return {m: k // step for m, k in n.items()}
                return None
        return None

    # ------------------------------------------------------------- expressions
    def lkey(self, e, st):
        """the environment key of a scalar location"""
        e = strip(e)
        if e.kind == "ref":
            return self.key(e.name)
        if e.kind == "member":
            b = strip(e.kids[0])
            if b.kind == "index":
                t = self.quiet(b.kids[0], st)
                if isinstance(t, Ptr):
                    return ("$", id(t.block), e.name)
                return None
            v = self.quiet(b, st)
            if isinstance(v, tuple) and v[0] == "structvar":
                return ("$", v[1], e.name)
        if e.kind == "index":
            p = self.quiet(e.kids[0], st)
            i = self.quiet(e.kids[1], st)
            if isinstance(p, Ptr) and isinstance(i, dict) and e.type and not dims_of(e.type):
                return (p.block, self.okey(add(p.off, mul(i, size_of(e.type)))))
        if e.kind == "unary" and e.op == "*":
            p = self.quiet(e.kids[0], st)
            if isinstance(p, Ptr):
                return (p.block, self.okey(p.off))
        return None

    def ev(self, e, st):
        self.steps += 1
        if e is None:
            return None
        k = e.kind
        if k == "num":
            return C(int(e.value)) if isinstance(e.value, int) else C(int(e.value)) if float(e.value).is_integer() else F(self.fresh("const"))
        if k == "cast":
            v = self.ev(e.kids[0], st)
            t = (e.type or "").replace("const ", "").strip()
            if "*" in t:
                for x in alts(v):
                    if isinstance(x, Ptr) and x.block.kind == "array" and x.block.dtype and elem(t) in SIZES and self.rec:
                        kind = "f" if elem(t) in ("double", "float", "npy_double") else "i"
                        self.obl()
                        if x.block.dtype != (kind, SIZES[elem(t)]):
                            self.fail("element type", self.fname, e.line, "the elements of %s (%s) are accessed as %s" % (
                                x.block.name, x.block.typename, elem(t)))
                if isinstance(v, dict) and const(v) == 0:
                    return NULLP
                return v
            if t in ("double", "float"):
                return v if isinstance(v, F) else v if isinstance(v, dict) else F(self.fresh("f"))
            if t in INTS:
                if isinstance(v, F):
                    return self.index_from(v, st, e)
                return v
            return v
        if k == "ref":
            if e.extra == "EnumConstantDecl":
                return ("enum", e.name)
            v = st.env.get(self.key(e.name))
            if isinstance(v, tuple) and v[0] == "trunc":
                return self.index_from(v[1], st, e)
            return v
        if k == "str":
            return None
        if k == "sizeof":
            return size_of(e.type) if e.type else None
        if k == "member":
            return self.member(e, st)
        if k == "index":
            return self.load(self.address(e, st), e, st)
        if k == "unary":
            return self.unary(e, st)
        if k == "binary":
            return self.binary(e, st)
        if k == "cond":
            c = self.truth(e.kids[0], st)
            self.ev(e.kids[0], st)
            if c is not None:
                return self.ev(e.kids[1 if c else 2], st)
            a, b = st.copy(), st.copy()
            self.assume(e.kids[0], a, True)
            self.assume(e.kids[0], b, False)
            return join(self.ev(e.kids[1], a), self.ev(e.kids[2], b))
        if k == "call":
            return self.call(e, st)
        for x in e.kids:
            if x is not None:
                self.ev(x, st)
        return None

    def index_from(self, v, st, e):
        """(int) of a floating-point value"""
        if v.scale is not None:
            g = {(o, c) for k, o, c in st.guards if k == v.key}
            lo = any(o in (">=", ">") and c >= 0 for o, c in g)
            hi = any(o == "<" and c <= 1 for o, c in g)
            if lo and hi:
                s = "cell:%s" % v.key
                if self.ranges.get(s) is None:
                    self.ranges[s] = v.scale
                elif self.ranges[s] != v.scale:
                    s = self.fresh(s)
                    self.ranges[s] = v.scale
                # int(x * 0) is 0: the range is [0, n) only for n >= 1
                if not self.prove(add(v.scale, C(-1)), st):
                    w = self.witness(add(v.scale, C(-1)), st)
                    if w is not None:
                        return Data(frozenset(v.parts), "the number of cells may be 0")
                    if self.rec:
                        self.und.append("%s:%s the number of cells %s not shown to be positive" % (self.fname, e.line, show(v.scale)))
                return S(s)
            return Data(frozenset(v.parts), "no check that it lies in [0, 1)" if not lo and not hi else "no check that it is %s" % (
                "not negative" if not lo else "less than 1"))
        if not any(k in v.parts for k, _, _ in st.guards):
            return Data(frozenset(v.parts), "no check of its range")
        return None

    def member(self, e, st):
        b = strip(e.kids[0])
        if b.kind == "index":
            p = self.address(b, st)
            self.access(p, b.type, e, st, False, self.fname)
            k = self.lkey(e, st)
            return st.env.get(k) if k else None
        v = self.ev(b, st)
        if isinstance(v, tuple) and v[0] == "structvar":
            return st.env.get(("$", v[1], e.name))
        return None

    def address(self, e, st):
        """pointer to the element an index expression names"""
        p = self.ev(e.kids[0], st)
        i = self.ev(e.kids[1], st)
        return self.offset(p, i, e.type, st)

    def offset(self, p, i, t, st):
        if isinstance(p, Alt) or isinstance(i, Alt):
            vs = [self.offset(x, y, t, st) for x in alts(p) for y in alts(i)]
            return Alt(vs) if all(v is not None for v in vs) else None
        if p == NULLP:
            return NULLP
        if isinstance(p, Ptr) and isinstance(i, Data):
            return ("dataptr", i, p.block)
        if isinstance(p, Ptr) and isinstance(i, dict):
            return Ptr(p.block, add(p.off, mul(i, size_of(t))))
        if isinstance(p, tuple) and p[0] == "dataptr":
            return p
        return None

    def load(self, p, e, st):
        t = e.type
        if dims_of(t or ""):
            return p
        self.access(p, t, e, st, False, self.fname)
        if isinstance(p, Ptr) and (p.block, self.okey(p.off)) in st.env:
            v = st.env[(p.block, self.okey(p.off))]
            if isinstance(v, tuple) and v[0] == "trunc":
                return self.index_from(v[1], st, e)
            if v is not None:
                return v
        tt = (t or "").replace("const ", "").strip()
        if tt in ("double", "float"):
            if isinstance(p, Ptr):
                return F("%s[%s]" % (p.block.name, show(p.off)))
            return F(self.fresh("f"))
        if tt in INTS and isinstance(p, Ptr) and p.block.kind == "array":
            return Data(frozenset(["%s[]" % p.block.name]), "an element of an argument")
        return None

    def unary(self, e, st):
        if e.op == "*":
            return self.load(self.ev(e.kids[0], st), e, st)
        if e.op == "&":
            x = strip(e.kids[0])
            if x.kind == "index":
                return self.address(x, st)
            if x.kind == "ref":
                v = st.env.get(self.key(x.name))
                if isinstance(v, tuple) and v[0] == "structvar":
                    return v
                return ("ref", self.key(x.name))
            return None
        if e.op in ("++", "--"):
            old = self.ev(e.kids[0], st)
            one = C(1 if e.op == "++" else -1)
            new = self.plus(old, one, strip(e.kids[0]).type)
            self.store(e.kids[0], new, e, st)
            return old if e.extra else new
        v = self.ev(e.kids[0], st)
        if e.op == "-":
            if isinstance(v, dict):
                return mul(v, C(-1))
            if isinstance(v, F):
                return F(self.fresh("f"), None, v.parts)
            return None
        if e.op == "+":
            return v
        if e.op == "!":
            t = self.truth(e.kids[0], st)
            return C(int(not t)) if t is not None else None
        return None

    def plus(self, a, b, t):
        if isinstance(a, dict) and isinstance(b, dict):
            return add(a, b)
        if isinstance(a, Ptr) and isinstance(b, dict) and elem(t):
            return Ptr(a.block, add(a.off, mul(b, size_of(elem(t)))))
        if isinstance(a, Ptr) and isinstance(b, Data):
            return ("dataptr", b, a.block)
        if isinstance(a, Alt):
            vs = [self.plus(x, b, t) for x in a.vs]
            return Alt(vs) if all(v is not None for v in vs) else None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Data) and (isinstance(y, (dict, Data))):
                return Data(x.keys | (y.keys if isinstance(y, Data) else frozenset()), x.why)
        if isinstance(a, F) or isinstance(b, F):
            ps = frozenset()
            for x in (a, b):
                if isinstance(x, F):
                    ps |= x.parts
            return F(self.fresh("f"), None, ps)
        return None

    def binary(self, e, st):
        op = e.op
        if op == "=":
            v = self.ev(e.kids[1], st)
            self.store(e.kids[0], v, e, st)
            return v
        if op == ",":
            self.ev(e.kids[0], st)
            return self.ev(e.kids[1], st)
        if op in ("&&", "||"):
            self.ev(e.kids[0], st)
            s2 = st.copy()
            self.assume(e.kids[0], s2, op == "&&")
            self.ev(e.kids[1], s2)
            t = self.truth(e, st)
            return C(int(t)) if t is not None else None
        if op in ("+=", "-=", "*=", "/="):
            a, b = self.ev(e.kids[0], st), self.ev(e.kids[1], st)
            t = strip(e.kids[0]).type
            if op == "+=":
                v = self.plus(a, b, t)
            elif op == "-=":
                v = self.plus(a, mul(b, C(-1)), t) if isinstance(b, dict) else self.plus(a, b, t) if isinstance(b, F) else None
            elif op == "*=":
                v = self.times(a, b)
            else:
                v = F(self.fresh("f")) if (t or "") in ("double", "float") else None
            self.store(e.kids[0], v, e, st)
            return v
        a, b = self.ev(e.kids[0], st), self.ev(e.kids[1], st)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            t = self.truth(e, st)
            return C(int(t)) if t is not None else None
        if op == "+":
            if isinstance(b, (Ptr, Alt)) and isinstance(a, dict):
                return self.plus(b, a, e.type)
            return self.plus(a, b, e.type)
        if op == "-":
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.block is b.block:
                return None
            if isinstance(b, dict):
                return self.plus(a, mul(b, C(-1)), e.type)
            return self.plus(a, b, e.type) if isinstance(a, (F, Data)) or isinstance(b, (F, Data)) else None
        if op == "*":
            return self.times(a, b)
        if op == "/":
            if (e.type or "") in ("double", "float"):
                ps = frozenset()
                for x in (a, b):
                    if isinstance(x, F):
                        ps |= x.parts
                return F(self.fresh("f"), None, ps)
            if isinstance(a, dict) and isinstance(b, dict) and const(b) and all(c % const(b) == 0 for c in a.values()):
                return {m: c // const(b) for m, c in a.items()}
            if isinstance(a, dict) and isinstance(b, dict) and const(b) and const(b) > 0 and self.prove(a, st):
                k = (tuple(sorted(a.items())), const(b))
                if k not in self.divs:
                    self.divs[k] = self.fresh("quotient")
                    self.lb[self.divs[k]] = 0
                q = mul(S(self.divs[k]), b)
                for f in ((">=", add(a, q, -1)), (">=", add(add(q, add(b, C(-1))), a, -1))):
                    if f not in st.facts:
                        st.facts.append(f)
                return S(self.divs[k])
            return None
        if op == "<<" and isinstance(a, dict) and isinstance(b, dict) and const(b) is not None and 0 <= const(b) < 63:
            return mul(a, C(2 ** const(b)))
        if op in ("|", "&", "<<", ">>") and isinstance(a, dict) and isinstance(b, dict) and const(a) is not None and const(b) is not None:
            x, y = const(a), const(b)
            return C({"|": x | y, "&": x & y, "<<": x << y if y < 64 else 0, ">>": x >> y}[op])
        return None

    def times(self, a, b):
        if isinstance(a, Alt) or isinstance(b, Alt):
            vs = [self.times(x, y) for x in alts(a) for y in alts(b)]
            return Alt(vs) if all(v is not None for v in vs) else None
        if isinstance(a, dict) and isinstance(b, dict):
            return mul(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, F) and isinstance(y, dict):
                if x.scale is None:
                    return F(x.key, y, x.parts)
                return F(self.fresh("f"), None, x.parts)
            if isinstance(x, Data) and isinstance(y, (dict, Data)):
                return Data(x.keys | (y.keys if isinstance(y, Data) else frozenset()), x.why)
        if isinstance(a, F) or isinstance(b, F):
            ps = frozenset()
            for x in (a, b):
                if isinstance(x, F):
                    ps |= x.parts
            return F(self.fresh("f"), None, ps)
        return None

    def store(self, lhs, v, e, st):
        l = strip(lhs)
        t = (l.type or "").replace("const ", "").strip()
        if l.kind == "ref":
            st.env[self.key(l.name)] = self.coerce(v, t, l.name)
            return
        if l.kind == "member":
            b = strip(l.kids[0])
            if b.kind == "index":
                p = self.address(b, st)
                self.access(p, b.type, e, st, True, self.fname)
                k = self.lkey(l, st)
                v = self.coerce(v, t, l.name)
                if k is not None:
                    st.env[k] = join(st.env[k], v) if k in st.env else v
                return
            k = self.lkey(l, st)
            if k is not None:
                st.env[k] = self.coerce(v, t, l.name)
            return
        if l.kind == "unary" and l.op == "*":
            q = self.ev(l.kids[0], st)
            if isinstance(q, tuple) and q[0] == "ref":
                st.env[q[1]] = self.coerce(v, t, "v")
                return
            p = q
        elif l.kind == "index":
            p = self.address(l, st)
        else:
            return
        self.access(p, l.type, e, st, True, self.fname)
        if isinstance(p, Ptr) and p.block.kind == "local":
            if const(p.off) is None and any(not m == () for m in p.off):
                for k in [k for k in st.env if k[0] is p.block]:
                    st.env[k] = None
            st.env[(p.block, self.okey(p.off))] = self.coerce(v, t, "%s[%s]" % (p.block.name, show(p.off)))

    # ------------------------------------------------------------- calls
    def call(self, e, st):
        n = e.name or "?"
        if n in PARSE:
            return self.parse(e, st)
        if n in ("malloc", "PyMem_Malloc", "PyMem_RawMalloc"):
            v = self.ev(e.kids[0], st)
            return self.heap(v, e)
        if n in ("calloc", "PyMem_Calloc", "PyMem_RawCalloc"):
            a, b = self.ev(e.kids[0], st), self.ev(e.kids[1], st)
            return self.heap(mul(a, b) if isinstance(a, dict) and isinstance(b, dict) else None, e)
        if n in ("PyArray_FromAny", "PyArray_CheckFromAny"):
            o = self.ev(e.kids[0], st)
            ty = self.npytype(e.kids[1], st)
            lo, hi = self.ev(e.kids[2], st), self.ev(e.kids[3], st)
            fl = self.flags(e.kids[4], st)
            nm = self.target(e)
            nd = const(lo) if isinstance(lo, dict) and isinstance(hi, dict) and lo == hi and const(lo) else None
            if nd:
                ds = [S(self.dim(nm, i)) for i in range(nd)]
                size = C(1)
                for d in ds:
                    size = mul(size, d)
            else:
                ds = None
                size = S(self.sizesym(nm))
            a = Arr(nm, ds, size, ty, fl, e.line, False)
            return Alt([a, NULLP])
        if n in ("PyArray_New", "PyArray_Zeros", "PyArray_Empty"):
            i = 0 if n != "PyArray_New" else 1
            nd, dp = self.ev(e.kids[i], st), self.ev(e.kids[i + 1], st)
            ty = self.npytype(e.kids[i + 2], st)
            size = None
            ds = None
            if isinstance(nd, dict) and const(nd) and isinstance(dp, Ptr):
                ds = []
                for j in range(const(nd)):
                    v = st.env.get((dp.block, self.okey(add(dp.off, C(8 * j)))))
                    ds.append(v if isinstance(v, dict) else None)
                self.access(Ptr(dp.block, add(dp.off, C(8 * (const(nd) - 1)))), "npy_intp", e, st, False, self.fname)
                if all(d is not None for d in ds):
                    size = C(1)
                    for d in ds:
                        size = mul(size, d)
                        # negative extents are refused by numpy
                        f = (">=", d)
                        if f not in st.facts and syms(d):
                            st.facts.append(f)
                else:
                    ds = None
            return Alt([Arr(self.target(e), ds, size, ty, 0x501, e.line, True), NULLP])
        if n in ("PyArray_DATA", "PyArray_BYTES"):
            v = self.ev(e.kids[0], st)
            return self.over(v, lambda a: self.data(a, e))
        if n == "PyArray_DIM":
            v, i = self.ev(e.kids[0], st), self.ev(e.kids[1], st)
            if isinstance(i, dict) and const(i) is not None:
                j = const(i)

                def dimof(a):
                    if not isinstance(a, Arr):
                        return None
                    if a.dims is None:
                        return S(self.dim(a.name, j))
                    if not 0 <= j < len(a.dims):
                        self.fail("bounds", self.fname, e.line, "dimension %d of %s, which has %d, is read" % (j, a.name, len(a.dims)))
                        return None
                    return a.dims[j]
                return self.over(v, dimof)
            return None
        if n in ("PyArray_SIZE", "PyArray_MultiplyList"):
            x = [y for y in e.walk() if y.kind == "ref" and "PyArrayObject" in (y.type or "")]
            if not x:
                return None
            return self.over(self.ev(x[0], st), lambda a: a.size if isinstance(a, Arr) else None)
        if n == "PyArray_NDIM":
            v = self.ev(e.kids[0], st)
            return self.over(v, lambda a: C(len(a.dims)) if isinstance(a, Arr) and a.dims is not None else S(self.nn("ndim:" + a.name)) if isinstance(
                a, Arr) else None)
        if n == "omp_get_thread_num":
            s = self.fresh("thread")
            self.ranges[s] = S(self.team())
            self.ws[s] = "threads"
            return S(s)
        if n == "omp_get_num_threads":
            return S(self.team())
        if n == "omp_get_max_threads":
            self.lb["idle threads"] = 0
            return add(S(self.team()), S("idle threads"))
        if n in ("memset", "memcpy", "memmove"):
            a = [self.ev(x, st) for x in e.kids]
            for p, w in ((a[0], True),) + (((a[1], False),) if n != "memset" else ()):
                if isinstance(p, Ptr) and isinstance(a[2], dict) and self.rec:
                    self.obl()
                    d = add(add(p.block.bytes, p.off, -1), a[2], -1) if p.block.bytes is not None else None
                    if d is None or not self.prove(d, st):
                        w2 = self.witness(d, st) if d is not None else None
                        if w2 is not None:
                            self.fail("bounds", self.fname, e.line, "%s runs past the end of %s" % (n, p.block.name),
                                      "e.g. %s" % ", ".join("%s=%s" % x for x in sorted(w2.items())))
                        else:
                            self.und.append("%s:%s %s" % (self.fname, e.line, n))
            return a[0]
        if n in ("floor", "trunc"):
            v = self.ev(e.kids[0], st)
            return v
        if n in self.cf.funcs:
            fn = self.cf.funcs[n]
            args = self.arguments(e, fn, st)
            s2, v = self.call_body(fn, args, st.copy())
            # the caller's conditions still hold; the callee's effects are kept
            st.env = s2.env if not s2.dead else st.env
            st.dead = s2.dead
            if not s2.dead:
                for f in s2.facts:
                    if f not in st.facts:
                        st.facts.append(f)
            if (fn.type or "").startswith("double") and not isinstance(v, F):
                return F(self.fresh("f"))
            return v
        vs = [self.ev(a, st) for a in e.kids]
        if (e.type or "") in ("double", "float"):
            ps = frozenset()
            for x in vs:
                if isinstance(x, F):
                    ps |= x.parts
            return F(self.fresh("f"), None, ps)
        return None

    def arguments(self, e, fn, st):
        args = [self.ev(a, st) for a in e.kids]
        args = [self.coerce(a, t, p) for a, (p, t) in zip(args, fn.extra)]
        return [self.index_from(a[1], st, e) if isinstance(a, tuple) and a[0] == "trunc" else a for a in args]

    def over(self, v, f):
        vs = []
        for a in alts(v):
            if a == NULLP:
                continue
            r = f(a)
            if r is None:
                return None
            if not any(same(r, x) for x in vs):
                vs.append(r)
        return None if not vs else vs[0] if len(vs) == 1 else Alt(vs)

    def data(self, a, e):
        if not isinstance(a, Arr):
            return None
        if a.block is None:
            by = mul(a.size, C(a.dtype[1][1])) if a.size is not None and a.dtype else None
            a.block = Block(a.name, by, a.line, "array", a.dtype[1] if a.dtype else None, a.flags, a.fresh)
            a.block.typename = a.dtype[0] if a.dtype else "?"
            if self.rec:
                self.obl()
            if a.flags is not None and not a.flags & 0x1:
                self.fail("contiguous", self.fname, e.line, "the data of %s is addressed directly although it was not required contiguous" % a.name)
            elif a.flags is not None and not a.flags & 0x100:
                self.fail("aligned", self.fname, e.line, "the data of %s is addressed directly although it was not required aligned" % a.name)
        return Ptr(a.block, {})

    def heap(self, v, e):
        b = Block(self.target(e), v if isinstance(v, dict) else None, e.line, "heap")
        return Alt([Ptr(b, {}), NULLP])

    def target(self, e):
        if self.depth > 1 and e.name not in ("malloc", "calloc"):
            return self.fresh(self.names.get(id(e)) or e.name)
        return self.names.get(id(e)) or "%s@%s" % (e.name, e.line)

    def nn(self, s):
        self.lb[s] = 0
        return s

    def dim(self, nm, i):
        return self.nn("dim:%s[%d]" % (nm, i))

    def sizesym(self, nm):
        return self.nn("size:%s" % nm)

    def team(self):
        self.lb["threads"] = 1
        return "threads"

    def npytype(self, e, st=None):
        for x in e.walk():
            v = self.quiet(x, st) if st is not None and x.kind == "ref" else None
            if isinstance(v, tuple) and v[0] == "enum" and v[1] in NPY:
                return v[1], NPY[v[1]]
            if x.kind == "ref" and x.name in NPY:
                return x.name, NPY[x.name]
        return None

    def flags(self, e, st):
        v = self.quiet(e, st)
        return const(v) if isinstance(v, dict) else None

    def parse(self, e, st):
        kw = "Keywords" in e.name
        fmt = [x.value for x in e.kids[:4] if x.kind == "str"][0].split(":")[0].split(";")[0]
        codes = [c for c in fmt if c.isalpha()]
        ts = e.kids[4 if kw else 2:]
        want = {"i": ("int",), "l": ("long", "unsigned long", "npy_intp"), "d": ("double",), "f": ("float",), "n": ("npy_intp", "long", "Py_ssize_t"),
                "k": ("unsigned long",), "I": ("unsigned int",), "h": ("short",), "L": ("long long",), "O": None, "p": ("int",)}
        if self.rec:
            self.obl()
        if len(codes) != len(ts):
            self.fail("arguments", self.fname, e.line, "the format %r stores %d values in %d variables" % (fmt, len(codes), len(ts)))
        for c, t in zip(codes, ts):
            t = strip(t)
            if t.kind != "unary" or t.op != "&":
                continue
            l = strip(t.kids[0])
            ty = (l.type or "").replace("const ", "").strip()
            if self.rec:
                self.obl()
            if want.get(c) and ty in SIZES and size_of(ty) != size_of(want[c][0]) or want.get(c) and ty in SIZES and (
                    ty in ("double", "float")) != (want[c][0] in ("double", "float")):
                self.fail("arguments", self.fname, e.line, "the format unit %r is stored in a variable of type %s" % (c, ty))
            nm = {"ref": lambda: l.name, "member": lambda: l.name, "index": lambda: "%s[%s]" % (getattr(strip(l.kids[0]), "name", "?"),
                                                                                                getattr(strip(l.kids[1]), "value", "?"))}.get(
                l.kind, lambda: "arg")()
            if ty in INTS:
                s = "arg:" + nm
                if ty in UNSIGNED:
                    self.lb[s] = 0
                v = S(s)
            elif ty in ("double", "float"):
                v = F("arg:" + nm)
            else:
                v = None
            self.store(l, v, e, st)
        return None


def name_calls(cf):
    """call -> the variable its result is stored in"""
    out = {}
    for f in cf.funcs.values():
        for x in f.walk():
            if x.kind == "decl" and x.kids and strip(x.kids[0]).kind == "call":
                out[id(strip(x.kids[0]))] = x.name
            elif x.kind == "binary" and x.op == "=" and strip(x.kids[1]).kind == "call":
                l = strip(x.kids[0])
                if l.kind == "ref":
                    out[id(strip(x.kids[1]))] = l.name
    return out


def analyse(prog, rep, tier, seed):
    from . import cfront
    cf = cfront.CFile(prog.root, "src/ctrans.c")
    RECORDS.clear()
    RECORDS.update(cf.records)
    ms = cfront.methods(cf)
    if not ms:
        raise cfront.AnalysisBroken("anchor vanished: method table of src/ctrans.c")
    rep.rules.append("memory bounds by abstract interpretation with polynomial offsets; direct data pointers only into contiguous, aligned arrays of "
                     "the accessed element type, written only if required writeable; parse formats match the variables they fill")
    for py, c in sorted(ms.items()):
        b = Bounds(cf, rep)
        b.names = name_calls(cf)
        try:
            b.entry(cf.funcs[c])
            rep.count("functions_analysed")
        except Give as g:
            rep.undecided.append("%s: %s" % (c, g))
        rep.findings += [f for f in b.findings.values() if f.rule != "race"]
        rep.undecided += sorted(set(b.und))


def separate(cf, rep):
    """overlapping writes of a parallel region, for the interference analysis"""
    from . import cfront
    RECORDS.clear()
    RECORDS.update(cf.records)

    class Quiet:
        def count(self, k, n=1):
            if k == "separations_checked":
                rep.count(k, n)
    out = []
    for py, c in sorted(cfront.methods(cf).items()):
        b = Bounds(cf, Quiet())
        b.names = name_calls(cf)
        try:
            b.entry(cf.funcs[c])
        except Give:
            continue
        out += [f for f in b.findings.values() if f.rule == "race"]
    return out
