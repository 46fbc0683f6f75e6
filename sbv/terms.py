"""Hash-consed value terms with a light algebraic normal form.

A term is the static meaning of one expression occurrence of the analysed
source: a node of the gated value graph (GSA / value numbering).  Constructors
perform the rewrites that hold for every input: flattening and collection of
sums and products, constant folding in exact rationals, select-over-store,
ite simplification.  Nothing here (or anywhere in /verif) executes repository
code.
"""
from __future__ import annotations

import re as _re
from fractions import Fraction


class T:
    __slots__ = ("op", "args", "uid", "_bvh", "_vars", "__weakref__")

    def __init__(self, op, args, uid):
        self.op = op
        self.args = args
        self.uid = uid
        self._bvh = None
        self._vars = None

    def __repr__(self):
        return show(self, 6)

    def __hash__(self):
        return self.uid

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.uid < other.uid


_table = {}


def _prim_key(a):
    # 1, 1.0 and True must stay distinguishable as primitives
    if isinstance(a, T):
        return a
    return (type(a).__name__, a)


def raw(op, *args):
    key = (op,) + tuple(_prim_key(a) for a in args)
    t = _table.get(key)
    if t is None:
        t = T(op, args, len(_table))
        _table[key] = t
    return t


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool):
        return raw("const", "bool", v)
    if isinstance(v, int):
        return raw("const", "num", Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return raw("sym", "nan" if v != v else ("inf" if v > 0 else "-inf"))
        return raw("const", "num", Fraction(repr(v)))
    if isinstance(v, Fraction):
        return raw("const", "num", v)
    if isinstance(v, complex):
        if v.real == 0:
            return mul(const(v.imag), raw("sym", "1j"))
        return add(const(v.real), mul(const(v.imag), raw("sym", "1j")))
    if isinstance(v, str):
        return raw("const", "str", v)
    if isinstance(v, bytes):
        return raw("const", "bytes", v)
    if v is None:
        return NONE
    if v is Ellipsis:
        return raw("const", "ellipsis", "...")
    return raw("const", type(v).__name__, repr(v))


NONE = raw("const", "none", "None")
TRUE = const(True)
FALSE = const(False)
UNDEF = raw("sym", "undef")


def is_const(t):
    return t.op == "const" or t.op == "dtype"


def is_num(t):
    return t.op == "const" and t.args[0] == "num"


def num_of(t):
    """Fraction value of a numeric or boolean constant, else None."""
    if t.op == "const":
        if t.args[0] == "num":
            return t.args[1]
        if t.args[0] == "bool":
            return Fraction(int(t.args[1]))
    return None


def int_of(t):
    v = num_of(t)
    if v is not None and v.denominator == 1:
        return int(v)
    return None


def str_of(t):
    if t.op == "const" and t.args[0] == "str":
        return t.args[1]
    return None


ZERO = const(0)
ONE = const(1)
MINUS = const(-1)


def var(name):
    return raw("var", name)


SEQ_OPS = {"list", "tuple", "concat", "listcomp", "repeat", "append"}
STR_OPS = {"fmt", "strjoin", "str", "fstr"}


def is_seq(t):
    return t.op in SEQ_OPS


def is_str(t):
    if t.op == "ite":
        return is_str(t.args[1]) or is_str(t.args[2])
    if t.op == "concat":
        return any(is_str(a) for a in t.args)
    if t.op == "var":
        return t.args[0] == "<files>"
    if t.op == "select" and t.args[0].op == "dict" and t.args[0].args:
        return all(x.op == "kv" and is_str(x.args[1]) for x in t.args[0].args)
    if t.op == "select" and t.args[0].op in ("m.split", "s.split") and int_of(t.args[1]) is not None:
        return True
    return t.op in STR_OPS or (t.op == "const" and t.args[0] in ("str", "bytes"))


# --------------------------------------------------------------- arithmetic
def _coef_base(t):
    """t = coef * base with base free of a leading numeric constant."""
    if is_num(t):
        return t.args[1], ONE
    if t.op == "mul" and is_num(t.args[0]):
        rest = t.args[1:]
        return t.args[0].args[1], rest[0] if len(rest) == 1 else raw("mul", *rest)
    return Fraction(1), t


def add(*ts):
    acc = {}
    order = []
    stack = list(ts)
    flat = []
    while stack:
        t = stack.pop(0)
        if t.op == "add":
            stack[0:0] = list(t.args)
        else:
            flat.append(t)
    for t in flat:
        n = num_of(t)
        if n is not None:
            c, b = n, ONE
        else:
            c, b = _coef_base(t)
        if b not in acc:
            acc[b] = Fraction(0)
            order.append(b)
        acc[b] += c
    out = []
    k = acc.pop(ONE, Fraction(0))
    for b in sorted((b for b in order if b is not ONE and acc.get(b)), key=_skey):
        c = acc[b]
        out.append(b if c == 1 else mul(const(c), b))
    if k != 0:
        out.append(const(k))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return raw("add", *out)


_skcache = {}


def _skey(t):
    """A structural key independent of construction order."""
    return skey(t)


def skey(t):
    k = _skcache.get(t)
    if k is None:
        import hashlib

        m = hashlib.blake2b(digest_size=12)
        m.update(t.op.encode())
        for a in t.args:
            if isinstance(a, T):
                m.update(b"(" + skey(a).encode() + b")")
            else:
                m.update(("|%s:%r" % (type(a).__name__, a)).encode())
        k = m.hexdigest()
        _skcache[t] = k
    return k


def _base_exp(t):
    if t.op == "pow" and is_num(t.args[1]):
        return t.args[0], t.args[1].args[1]
    return t, Fraction(1)


def mul(*ts):
    coef = Fraction(1)
    acc = {}
    exps = []
    stack = list(ts)
    while stack:
        t = stack.pop(0)
        if t.op == "mul":
            stack[0:0] = list(t.args)
            continue
        n = num_of(t)
        if n is not None:
            coef *= n
            continue
        if t.op == "np.exp" and len(t.args) == 1:
            exps.append(t.args[0])
            continue
        b, e = _base_exp(t)
        if b.op == "np.exp" and len(b.args) == 1:
            exps.append(mul(const(e), b.args[0]))
            continue
        acc[b] = acc.get(b, Fraction(0)) + e
    if coef == 0:
        return ZERO
    fac = []
    for b, e in acc.items():
        if e == 0:
            continue
        p = power(b, const(e))
        n = num_of(p)
        if n is not None:
            coef *= n
        elif p.op == "mul" and is_num(p.args[0]):
            coef *= p.args[0].args[1]
            fac.extend(p.args[1:])
        else:
            fac.append(p)
    if exps:
        e = add(*exps)
        if e is not ZERO:
            fac.append(raw("np.exp", e))
    if not fac:
        return const(coef)
    fac.sort(key=_skey)
    if len(fac) == 1 and fac[0].op == "add" and coef != 1:
        return add(*[mul(const(coef), a) for a in fac[0].args])
    if coef == 1:
        if len(fac) == 1:
            return fac[0]
        return raw("mul", *fac)
    return raw("mul", const(coef), *fac)


def neg(t):
    return mul(MINUS, t)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    return mul(a, power(b, MINUS))


def power(b, e):
    ne = num_of(e)
    nb = num_of(b)
    if ne is not None:
        if ne == 1:
            return b
        if ne == 0:
            return ONE
        if nb is not None and ne.denominator == 1 and abs(ne) <= 64 and not (nb == 0 and ne < 0):
            return const(nb ** int(ne))
        if nb is not None and ne == Fraction(1, 2) and nb >= 0:
            import math

            n, d = nb.numerator, nb.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return const(Fraction(rn, rd))
        if b.op == "pow" and is_num(b.args[1]):
            ie = b.args[1].args[1]
            if ie.denominator == 1 and ie % 2 == 0 and ne.denominator % 2 == 0:
                return power(raw("np.abs", b.args[0]), const(ie * ne))
            return power(b.args[0], const(ie * ne))
        if b.op == "np.abs" and ne.denominator == 1 and ne % 2 == 0:
            return power(b.args[0], e)
        if b.op == "np.exp":
            return raw("np.exp", mul(b.args[0], e))
        if b.op == "mul" and ne.denominator == 1:
            return mul(*[power(a, e) for a in b.args])
        if b.op == "mul" and is_num(b.args[0]) and b.args[0].args[1] > 0 and ne.denominator != 1:
            c = power(b.args[0], e)
            rest = b.args[1:]
            r = rest[0] if len(rest) == 1 else raw("mul", *rest)
            return mul(c, raw("pow", r, e)) if not (r.op in ("pow", "np.exp")) else mul(c, power(r, e))
    return raw("pow", b, e)


def floordiv(a, b):
    na, nb = num_of(a), num_of(b)
    if na is not None and nb:
        return const(na // nb)
    if nb == 1:
        return raw("floor", a)
    if nb and a.op == "np.array" and vec(a) is not None:
        return raw("np.array", raw("list", *[floordiv(x, b) for x in vec(a)]))
    if nb and a.op == "mul" and all(int_valued(x) for x in a.args):
        c = [x for x in a.args if is_num(x)]
        if len(c) == 1 and num_of(c[0]) % nb == 0:
            return mul(const(num_of(c[0]) // nb), *[x for x in a.args if not is_num(x)])
    return raw("floordiv", a, b)


def mod(a, b):
    na, nb = num_of(a), num_of(b)
    if na is not None and nb:
        return const(na % nb)
    if is_str(a):
        return raw("fmt", a, b)
    return raw("mod", a, b)


# -------------------------------------------------------------- comparisons
BOOL_OPS = {"lt", "le", "eq", "ne", "is", "in", "not", "and", "or", "isinstance",
            "np.isnan", "np.any", "np.all", "callable", "hasattr", "raises",
            "np.isfinite", "np.isinf", "truth", "band", "bor"}


def is_bool(t):
    if t.op == "const":
        return t.args[0] == "bool"
    if t.op == "ite":
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return t.op in BOOL_OPS


_NOT = {}


def NOT(t):
    r = _NOT.get(t)
    if r is None:
        r = _NOT[t] = _not(t)
    return r


def _not(t):
    if t.op == "const":
        v = truth_const(t)
        return const(not v)
    if t.op == "not":
        if is_bool(t.args[0]):
            return t.args[0]
    if t.op == "lt":
        return le(t.args[1], t.args[0])
    if t.op == "le":
        return lt(t.args[1], t.args[0])
    if t.op == "eq":
        return raw("ne", *t.args)
    if t.op == "ne":
        return raw("eq", *t.args)
    if t.op == "and":
        return OR(*[NOT(a) for a in t.args])
    if t.op == "or":
        return AND(*[NOT(a) for a in t.args])
    if t.op == "ite" and is_bool(t):
        return ite(t.args[0], NOT(t.args[1]), NOT(t.args[2]))
    return raw("not", t)


def truth_const(t):
    kind, v = t.args
    if kind == "none":
        return False
    return bool(v)


def truth(t):
    """Condition view of a value."""
    if t.op == "const":
        return const(truth_const(t))
    if t.op in ("list", "tuple"):
        return const(len(t.args) > 0)
    if t.op == "dict":
        return const(len(t.args) > 0)
    return t


def AND(*ts):
    out = []
    for t in ts:
        if t.op == "and":
            out.extend(t.args)
        else:
            out.append(t)
    res = []
    for t in out:
        t = truth(t)
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t not in res:
            res.append(t)
    for t in res:
        if NOT(t) in res:
            return FALSE
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    res.sort(key=_skey)
    return raw("and", *res)


def OR(*ts):
    out = []
    for t in ts:
        if t.op == "or":
            out.extend(t.args)
        else:
            out.append(t)
    res = []
    for t in out:
        t = truth(t)
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t not in res:
            res.append(t)
    for t in res:
        if NOT(t) in res:
            return TRUE
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    res.sort(key=_skey)
    return raw("or", *res)


def lt(a, b):
    na, nb = num_of(a), num_of(b)
    if na is not None and nb is not None:
        return const(na < nb)
    if a is b:
        return FALSE
    return raw("lt", a, b)


def le(a, b):
    na, nb = num_of(a), num_of(b)
    if na is not None and nb is not None:
        return const(na <= nb)
    if a is b:
        return TRUE
    return raw("le", a, b)


canon_dt = None     # set by npmodel


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        na, nb = num_of(a), num_of(b)
        if na is not None and nb is not None:
            return const(na == nb)
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "type" and y.op == "ext" and y.args[0] in ("int", "float", "list", "tuple", "str", "dict", "bool"):
            if arrayish(x.args[0]):
                return FALSE
            if x.args[0].op in ("list", "tuple", "dict", "int", "float"):
                return TRUE if x.args[0].op == y.args[0] else FALSE
        if x.op == "dtype" and y.op == "ext" and canon_dt is not None:
            z = canon_dt(y)
            if z.op == "dtype":
                return TRUE if z is x else FALSE
        if x is TRUE and is_bool(y):
            return y
        if x is FALSE and is_bool(y):
            return NOT(y)
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return AND(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if _skey(b) < _skey(a):
        a, b = b, a
    return raw("eq", a, b)


NOT_NONE_OPS = {"list", "tuple", "dict", "add", "mul", "pow", "listcomp", "store", "append",
                "obj", "closure", "concat", "fmt", "nt"}


def is_none(t):
    if t is UNDEF:
        return FALSE
    if t is NONE:
        return TRUE
    if t.op == "const" or t.op in NOT_NONE_OPS or t.op.startswith("np.") or is_bool(t):
        return FALSE
    if t.op == "ite":
        return ite(t.args[0], is_none(t.args[1]), is_none(t.args[2]))
    if t.op == "select" and t.args[0].op == "listcomp" and t.args[1].op != "slice" and is_none(t.args[0].args[1]) is FALSE:
        return FALSE
    if t.op in ("ext", "fn", "clsref", "modref"):
        return FALSE
    return raw("is", t, NONE)


# ---------------------------------------------------------------------- ite
def under(t, c, n):
    """a conjunction or disjunction where c holds and n does not"""
    if t.op == "and":
        return FALSE if n in t.args else AND(*[x for x in t.args if x is not c]) if c in t.args else t
    if t.op == "or":
        return TRUE if c in t.args else OR(*[x for x in t.args if x is not n]) if n in t.args else t
    return t


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "ne":
        return ite(raw("eq", *c.args), b, a)
    if c.op == "le":  # canonical guard polarity
        return ite(raw("lt", c.args[1], c.args[0]), b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a.op in ("and", "or") or b.op in ("and", "or"):
        n = NOT(c)
        a, b = under(a, c, n), under(b, n, c)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return NOT(c)
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return OR(c, b)
        if b is FALSE:
            return AND(c, a)
        if a is FALSE:
            return AND(NOT(c), b)
        if b is TRUE:
            return OR(NOT(c), a)
    if a.op == "obj" and b.op == "obj" and a.args[0] == b.args[0]:
        fa = {kv.args[0]: kv.args[1] for kv in a.args[1:]}
        fb = {kv.args[0]: kv.args[1] for kv in b.args[1:]}
        ks = sorted(set(fa) | set(fb), key=lambda t: t.args[0])
        return raw("obj", a.args[0], *[raw("kv", k, ite(c, fa.get(k, UNDEF), fb.get(k, UNDEF))) for k in ks])
    if c.op == "lt":
        if c.args[0] is a and c.args[1] is b:
            return rebuild("min", (a, b))
        if c.args[0] is b and c.args[1] is a:
            return rebuild("max", (a, b))
    return raw("ite", c, a, b)


# ----------------------------------------------------------- select / store
def distinct(i, j):
    """Provably different index/field keys."""
    if i is j:
        return False
    if i.op == "const" and j.op == "const":
        return True
    if i.op == "field" or j.op == "field":
        return True if i.op != j.op else i.args[0] != j.args[0]
    if i.op == "tuple" and j.op == "tuple" and len(i.args) == len(j.args):
        return any(distinct(x, y) for x, y in zip(i.args, j.args))
    d = sub(i, j) if not (is_seq(i) or is_seq(j) or is_str(i) or is_str(j)) and i.op not in (
        "slice", "const_str") and j.op != "slice" else None
    if d is not None and is_num(d) and d.args[1] != 0:
        return True
    return False


def field(name):
    return raw("field", name)


def _idx_parts(i):
    return list(i.args) if i.op == "tuple" else [i]


def dtype_of(t):
    while t.op in ("np.ravel", "np.reshape"):
        t = t.args[0]
    if t.op == "astype" and t.args[1].op == "dtype":
        return t.args[1]
    return None


def arrayish(t):
    return t.op in ("astype", "np.array", "np.zeros", "np.ones", "np.ravel", "np.reshape", "np.asarray", "np.empty", "np.arange", "np.linspace")


def scalar(t):
    """certainly a number (not an array)"""
    if is_num(t) or t.op in ("int", "float", "len"):
        return True
    return t.op in ("add", "mul", "div", "pow", "sub", "neg", "floordiv", "mod") and all(scalar(a) for a in t.args if isinstance(a, T))


def int_valued(t):
    if t.op in ("int", "len"):
        return True
    if int_of(t) is not None:
        return True
    if t.op in ("add", "mul", "min", "max"):
        return all(int_valued(a) for a in t.args)
    if t.op == "pow":
        return int_valued(t.args[0]) and int_of(t.args[1]) is not None and int_of(t.args[1]) >= 0
    if t.op == "ite":
        return int_valued(t.args[1]) and int_valued(t.args[2])
    return False


def vec(t):
    """elements of a vector of known length with numbers as elements"""
    if t.op == "np.array" and len(t.args) == 1 and t.args[0].op in ("list", "tuple") and t.args[0].args and all(scalar(a) for a in t.args[0].args):
        return list(t.args[0].args)
    return None


def plain_seq(x, depth=4):
    """iterating over x visits x[0], x[1], ..."""
    if x.op == "ite":
        return depth > 0 and plain_seq(x.args[1], depth - 1) and plain_seq(x.args[2], depth - 1)
    return x.op in ("var", "select", "lv", "bv", "add", "mul", "pow", "store", "append", "list", "tuple", "sorted", "astype", "concat", "tolist") \
        or x.op.startswith("np.")


def select(b, i):
    if b.op == "tolist" and plain_seq(b.args[0]) and (i.op in ("const", "bv", "lv") and not (i.op == "const" and i.args[0] == "str") or i.op in ("add", "int")):
        return select(b.args[0], i)
    r = b.args[0] if b.op == "tolist" else b
    if r.op == "range" and len(r.args) == 3 and i.op == "lv" and i.args[0] == "k":
        return add(r.args[0], mul(r.args[2], i))
    if b.op == "np.array":
        v = vec(b)
        if v is not None:
            if i.op == "field" and i.args[0] == "size":
                return const(len(v))
            n = int_of(i)
            if n is not None and -len(v) <= n < len(v):
                return v[n]
            ix = list(i.args) if i.op == "list" else vec(i)
            if ix is not None and all(int_of(a) is not None and -len(v) <= int_of(a) < len(v) for a in ix):
                return raw("np.array", raw("list", *[v[int_of(a)] for a in ix]))
    if i.op == "field" and i.args[0] == "size" and b.op == "np.ravel":
        return rebuild("len", [b])
    if i.op == "field" and i.args[0] in ("strides", "itemsize"):
        z = b
        while z.op in ("store", "np.reshape") and z.op == "store":
            z = z.args[0]
        if z.op == "np.zeros" and len(z.args) == 1:
            if i.args[0] == "itemsize":
                return const(8)
            dims = list(z.args[0].args) if z.args[0].op == "tuple" else [z.args[0]] if scalar(z.args[0]) else None
            if dims:
                return raw("tuple", *[mul(const(8), *dims[k + 1:]) for k in range(len(dims))])
    if i.op == "field" and b.op == "dtype" and i.args[0] in ("kind", "itemsize", "name"):
        m = _re.fullmatch(r"(float|int|uint|complex|bool)(\d*)", str(b.args[0]))
        if m and (m.group(2) or m.group(1) == "bool"):
            return const({"float": "f", "int": "i", "uint": "u", "complex": "c", "bool": "b"}[m.group(1)]) if i.args[0] == "kind" else \
                const(int(m.group(2) or 8) // 8) if i.args[0] == "itemsize" else const(b.args[0])
    if i.op == "field" and i.args[0] == "dtype":
        d = dtype_of(b)
        if d is not None:
            return d
    if b.op == "select" and b.args[1].op == "field" and b.args[1].args[0] == "shape" and i is ZERO:
        return rebuild("len", [b.args[0]])
    if i.op == "add" and i.args and b.op not in ("ite", "tuple", "list", "dict", "nt", "obj"):
        # b[len(b) - k] == b[-k]
        c = [a for a in i.args if is_num(a)]
        o = [a for a in i.args if not is_num(a)]
        if len(c) == 1 and c[0].args[1] < 0 and len(o) == 1 and o[0].op == "len" and o[0] is rebuild("len", [b]):
            i = c[0]
    if b.op in ("mul", "add") and any(is_num(a) for a in b.args) and len(b.args) >= 2:
        # indexing commutes with scaling / shifting an array by a number
        if i.op != "field" or i.args[0] == "T":
            c = [a for a in b.args if is_num(a)]
            o = [a for a in b.args if not is_num(a)]
            if b.op == "mul":
                return mul(*(c + [select(mul(*o), i)]))
            return add(*(c + [select(add(*o), i)]))
    if b.op == "ite":
        return ite(b.args[0], select(b.args[1], i), select(b.args[2], i))
    if i.op == "ite" and b.op in ("tuple", "list"):
        return ite(i.args[0], select(b, i.args[1]), select(b, i.args[2]))
    if b.op in ("tuple", "list"):
        n = int_of(i)
        if n is not None and -len(b.args) <= n < len(b.args):
            return b.args[n]
        if i.op == "slice":
            lo, hi, st = [None if a is NONE else int_of(a) for a in i.args]
            ok = all(a is NONE or int_of(a) is not None for a in i.args)
            if ok:
                return raw(b.op, *b.args[slice(lo, hi, st)])
    if b.op == "concat" and b.args[-1].op == "list" and int_of(i) is not None and -len(b.args[-1].args) <= int_of(i) < 0:
        return b.args[-1].args[int_of(i)]
    if b.op == "concat" and b.args[0].op == "list" and int_of(i) is not None and 0 <= int_of(i) < len(b.args[0].args):
        return b.args[0].args[int_of(i)]
    if b.op == "dict":
        if is_const(i):
            hit = None
            for kv in b.args:
                k, v = kv.args
                if k is i:
                    hit = v
                elif not is_const(k):
                    hit = None
                    break
            if hit is not None:
                return hit
    if b.op in ("nt", "obj"):
        if i.op == "field":
            for a in b.args:
                if isinstance(a, T) and a.op == "kv" and a.args[0] is i:
                    return a.args[1]
        n = int_of(i)
        if n is not None and b.op == "nt":
            vals = [a.args[1] for a in b.args if isinstance(a, T) and a.op == "kv"]
            if -len(vals) <= n < len(vals):
                return vals[n]
    if b.op == "store":
        base, j, v = b.args
        if i is j and _stable_index(i):
            return v
        if distinct(i, j):
            return select(base, i)
        if i.op == "field" and i.args[0] in ("shape", "dtype", "size", "ndim") and j.op != "field":
            return select(base, i)
        # partial index: a[i] where store was at a[i, j...]
        pi, pj = _idx_parts(i), _idx_parts(j)
        if len(pi) < len(pj) and pj[:len(pi)] == pi and all(_scalar_index(x) for x in pi):
            rest = pj[len(pi):]
            return store(select(base, i), rest[0] if len(rest) == 1 else raw("tuple", *rest), v)
        if len(pi) > len(pj) and pi[:len(pj)] == pj and all(_scalar_index(x) for x in pj):
            rest = pi[len(pj):]
            return select(v, rest[0] if len(rest) == 1 else raw("tuple", *rest))
        for x, y in zip(pi, pj):
            if distinct(x, y):
                return select(base, i)
    if b.op == "listcomp" and b.args[2] is TRUE:
        # element number k of a list built by position
        pi = _idx_parts(i)
        if pi[0].op == "lv" and pi[0].args[0] == "k":
            e = subst(b.args[1], {raw("bv", int(b.args[3].args[1]), 0): pi[0]})
            return e if len(pi) == 1 else select(e, pi[1] if len(pi) == 2 else raw("tuple", *pi[1:]))
    if b.op == "select":
        # a[i][j] == a[i, j] for scalar leading indices
        pi = _idx_parts(b.args[1])
        if all(_scalar_index(x) for x in pi) and i.op != "field" and b.args[1].op != "field" \
                and i.op != "const_str" and not (i.op == "const" and i.args[0] == "str") \
                and not any(x.op == "const" and x.args[0] == "str" for x in pi):
            return select(b.args[0], raw("tuple", *(pi + _idx_parts(i))))
    return raw("select", b, i)


def _scalar_index(i):
    return i.op in ("const", "bv", "add", "mul", "var", "mod", "floordiv", "len", "int", "select", "elem", "lv") and \
        not (i.op == "const" and i.args[0] in ("ellipsis", "none")) and not (i.op == "add" and any(
            a.op in ("listcomp", "list") for a in i.args))


def _stable_index(i):
    return True


def store(b, i, v):
    if v is UNDEF:
        return b
    if i.op == "const" and i.args[0] == "ellipsis" and v.op == "np.reshape" and b.op == "np.zeros" and len(b.args) == 1 and v.args[1] is b.args[0]:
        return v
    if b.op in ("list", "tuple") and int_of(i) is not None:
        n = int_of(i)
        if -len(b.args) <= n < len(b.args):
            a = list(b.args)
            a[n] = v
            return raw(b.op, *a)
    if b.op == "dict" and is_const(i):
        if all(is_const(kv.args[0]) for kv in b.args):
            out = [kv for kv in b.args if kv.args[0] is not i]
            if len(out) == len(b.args):
                return raw("dict", *(list(b.args) + [raw("kv", i, v)]))
            return raw("dict", *[raw("kv", i, v) if kv.args[0] is i else kv for kv in b.args])
    if b.op in ("nt", "obj") and i.op == "field":
        hit = [k for k, a in enumerate(b.args) if isinstance(a, T) and a.op == "kv" and a.args[0] is i]
        a = list(b.args)
        if hit:
            a[hit[0]] = raw("kv", i, v)
        else:
            a.append(raw("kv", i, v))
            if b.op == "obj":
                head, kvs = a[:1], a[1:]
                kvs.sort(key=lambda t: t.args[0].args[0])
                a = head + kvs
        return raw(b.op, *a)
    if v.op == "select" and v.args[0] is b and v.args[1] is i:
        return b
    if v.op == "store" and v.args[0].op == "select" and v.args[0].args[0] is b and v.args[0].args[1] is i \
            and all(_scalar_index(x) for x in _idx_parts(i)) and v.args[1].op != "field":
        return store(b, raw("tuple", *(_idx_parts(i) + _idx_parts(v.args[1]))), v.args[2])
    if b.op == "store":
        if b.args[1] is i:
            return store(b.args[0], i, v)
        if distinct(i, b.args[1]) and _skey(i) < _skey(b.args[1]):
            return raw("store", store(b.args[0], i, v), b.args[1], b.args[2])
    if b.op == "ite" and v.op == "ite" and b.args[0] is v.args[0]:
        return ite(b.args[0], store(b.args[1], i, v.args[1]), store(b.args[2], i, v.args[2]))
    return raw("store", b, i, v)


def attr(b, name):
    return select(b, field(name))


# ------------------------------------------------------------------ binders
def bvh(t):
    """1 + highest bound-variable level occurring in t (0 when none)."""
    if t._bvh is None:
        m = 0
        if t.op == "bv":
            m = t.args[0]
        for a in t.args:
            if isinstance(a, T):
                h = bvh(a)
                if h > m:
                    m = h
        t._bvh = m
    return t._bvh


def free_lv(t):
    """loop/lambda temporaries ('lv' leaves) occurring in t."""
    if t._vars is None:
        if t.op == "lv":
            t._vars = frozenset([t])
        else:
            s = frozenset()
            for a in t.args:
                if isinstance(a, T):
                    f = free_lv(a)
                    if f:
                        s = s | f if s else f
            t._vars = s
    return t._vars


_lvcount = [0]


def fresh(name):
    _lvcount[0] += 1
    return raw("lv", name, _lvcount[0])


def rebuild(op, args):
    """Reconstruct through the simplifying constructors."""
    f = _CONS.get(op)
    if f is not None:
        return f(*args)
    return raw(op, *args)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if not m:
        return t
    keys = frozenset(m)
    only_lv = all(k.op == "lv" for k in m)

    def go(t):
        if t in m:
            return m[t]
        if only_lv and not (free_lv(t) & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if not any(isinstance(a, T) for a in t.args):
            memo[t] = t
            return t
        na = [go(a) if isinstance(a, T) else a for a in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            r = t
        else:
            r = rebuild(t.op, na)
        memo[t] = r
        return r

    return go(t)


def abstract(ts, lvs):
    """Replace temporaries lvs (ordered) in terms ts by canonical binders."""
    h = 1 + max([bvh(t) for t in ts] + [0])
    m = {v: raw("bv", h, k) for k, v in enumerate(lvs)}
    memo = {}
    return [subst(t, m, memo) for t in ts], h


def _mk_lt(a, b):
    return lt(a, b)


_CONS = {
    "add": add, "mul": mul, "pow": power, "floordiv": floordiv, "mod": mod,
    "lt": lt, "le": le, "eq": eq, "ne": lambda a, b: NOT(eq(a, b)), "not": NOT, "and": AND, "or": OR,
    "ite": ite, "select": select, "store": store,
    "is": lambda a, b: is_none(a) if b is NONE else raw("is", a, b),
}


def register(op, f):
    _CONS[op] = f


def show(t, depth=8):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    if t.op == "const":
        v = t.args[1]
        if t.args[0] == "num":
            return str(v) if v.denominator == 1 else "%g" % float(v)
        return repr(v) if t.args[0] == "str" else str(v)
    if t.op in ("var", "sym"):
        return str(t.args[0])
    if t.op == "lv":
        return "%s%d" % t.args
    if t.op == "bv":
        return "β%d.%d" % t.args
    if t.op == "field":
        return "." + t.args[0]
    if t.op == "add":
        return "(" + " + ".join(show(a, d) for a in t.args) + ")"
    if t.op == "mul":
        return "(" + " * ".join(show(a, d) for a in t.args) + ")"
    if t.op == "pow":
        return "%s**%s" % (show(t.args[0], d), show(t.args[1], d))
    if t.op == "select":
        if t.args[1].op == "field":
            return "%s.%s" % (show(t.args[0], d), t.args[1].args[0])
        return "%s[%s]" % (show(t.args[0], d), show(t.args[1], d))
    if t.op == "lt":
        return "(%s < %s)" % (show(t.args[0], d), show(t.args[1], d))
    if t.op == "le":
        return "(%s <= %s)" % (show(t.args[0], d), show(t.args[1], d))
    if t.op == "eq":
        return "(%s == %s)" % (show(t.args[0], d), show(t.args[1], d))
    if t.op == "slice":
        return ":".join("" if a is NONE else show(a, d) for a in t.args)
    if t.op == "tuple":
        return "(" + ", ".join(show(a, d) for a in t.args) + ")"
    if t.op == "list":
        return "[" + ", ".join(show(a, d) for a in t.args) + "]"
    return "%s(%s)" % (t.op, ", ".join(show(a, d) for a in t.args))


def size(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(a for a in x.args if isinstance(a, T))
    return len(seen)


def walk(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(a for a in x.args if isinstance(a, T))
