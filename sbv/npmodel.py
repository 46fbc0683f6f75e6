"""Library model: canonical names, argument binding and value-level meaning of
the numpy / scipy / builtin operations the code base uses."""
from __future__ import annotations

import functools
import inspect

from . import terms as tm
from .terms import (AND, FALSE, MINUS, NONE, NOT, ONE, OR, T, TRUE, ZERO, add, attr, const, div,
                    eq, floordiv, int_of, is_bool, is_const, is_num, is_seq, is_str, ite, le, lt,
                    mod, mul, neg, num_of, power, raw, select, sub, var)

HALF = const(0.5)
PI = raw("sym", "pi")

MATH = {"sqrt", "exp", "log", "log10", "sin", "cos", "tan", "floor", "ceil", "fabs", "hypot",
        "radians", "degrees", "pow", "isnan", "isinf"}
MATHMAP = {"asin": "arcsin", "acos": "arccos", "atan": "arctan", "atan2": "arctan2", "fabs": "abs",
           "pow": "power"}

ALIASES = {
    "np.absolute": "np.abs", "np.fabs": "np.abs", "np.amax": "np.max", "np.amin": "np.min",
    "np.true_divide": "np.divide", "np.remainder": "np.mod", "np.radians": "np.deg2rad",
    "np.degrees": "np.rad2deg", "np.concatenate": "np.concatenate", "np.matmul": "np.dot",
    "np.product": "np.prod", "np.asanyarray": "np.asarray", "np.ascontiguousarray": "np.asarray",
    "np.float_power": "np.power", "np.bitwise_not": "np.invert", "np.alltrue": "np.all",
    "np.row_stack": "np.vstack", "np.conj": "np.conjugate", "np.around": "np.round",
    "np.acos": "np.arccos", "np.asin": "np.arcsin", "np.atan": "np.arctan", "np.atan2": "np.arctan2",
    "np.pow": "np.power", "np.permute_dims": "np.transpose", "np.concat": "np.concatenate",
    "numpy.fft.fft2": "np.fft.fft2",
}

# array methods -> function of the same meaning
METHODS = {
    "sum", "mean", "std", "var", "min", "max", "any", "all", "argmin", "argmax", "argsort", "cumsum",
    "cumprod", "prod", "ravel", "reshape", "transpose", "squeeze", "nonzero", "dot", "round", "clip",
    "take", "repeat", "swapaxes", "conj", "conjugate", "searchsorted", "diagonal", "trace", "ptp",
}

PURE_METHODS = {
    # str / bytes
    "split", "rsplit", "strip", "lstrip", "rstrip", "lower", "upper", "startswith", "endswith", "format",
    "join", "replace", "find", "rfind", "isdigit", "isalpha", "encode", "decode", "capitalize", "title",
    "splitlines", "translate", "zfill", "ljust", "rjust", "isspace", "partition", "index", "count",
    # dict / list / set
    "get", "keys", "values", "items", "copy", "union", "intersection", "difference", "issubset",
    # array
    "tolist", "item", "astype", "view", "flatten", "tobytes", "tostring", "byteswap", "newbyteorder", "dot",
    # misc readers
    "group", "groups", "match", "search", "ppf", "pdf", "cdf", "is_integer",
} | METHODS

MUTATORS = {"append", "extend", "insert", "update", "pop", "popitem", "add", "remove", "discard", "sort",
            "fill", "clear", "setdefault", "reverse", "appendleft", "popleft", "put", "resize", "itemset",
            "partition_", "setfield", "setflags"}

DTYPE_CANON = {
    "float": "float64", "np.float64": "float64", "np.float": "float64", "np.double": "float64", "f8": "float64",
    "np.float_": "float64", "np.float32": "float32", "np.single": "float32", "f4": "float32",
    "int": "int64", "np.int64": "int64", "np.int_": "int64", "np.int": "int64", "i8": "int64", "np.intp": "int64",
    "np.int32": "int32", "np.int16": "int16", "np.int8": "int8", "np.uint8": "uint8", "np.uint16": "uint16",
    "np.uint32": "uint32", "np.uint64": "uint64", "bool": "bool", "np.bool_": "bool", "np.bool": "bool",
    "complex": "complex128", "np.complex128": "complex128", "np.complex": "complex128", "np.complex64": "complex64",
    "float64": "float64", "float32": "float32", "int64": "int64", "int32": "int32", "d": "float64", "i": "int32",
    "double": "float64", "np.longlong": "int64", "object": "object", "np.object_": "object",
}


def canon_dtype(t):
    s = None
    if t.op == "ext":
        s = t.args[0]
    elif t.op == "const" and t.args[0] == "str":
        s = t.args[1]
    if s is not None and s in DTYPE_CANON:
        return raw("dtype", DTYPE_CANON[s])
    return t


def canon_name(d):
    """canonical dotted name of an external object"""
    if d.startswith("numpy."):
        d = "np." + d[6:]
    elif d == "numpy":
        d = "np"
    elif d.startswith("math."):
        n = d[5:]
        n = MATHMAP.get(n, n)
        d = "np." + n
    elif d.startswith("six.moves.") and d.count(".") == 2:
        d = d[10:]
    elif d.startswith("builtins."):
        d = d[9:]
    if d.startswith("np.core.umath.") or d.startswith("np._core.umath."):
        d = "np." + d.rsplit(".", 1)[1]
    return ALIASES.get(d, d)


SYMS = {"np.pi": PI, "np.nan": raw("sym", "nan"), "np.NaN": raw("sym", "nan"), "np.NAN": raw("sym", "nan"),
        "np.inf": raw("sym", "inf"), "np.newaxis": NONE, "np.e": raw("np.exp", ONE), "np.Inf": raw("sym", "inf"),
        "scipy.pi": PI, "np.False_": FALSE, "np.True_": TRUE}


# ------------------------------------------------------------ argument bind
MANUAL_SIGS = {
    "np.arange": [("start", None), ("stop", None), ("step", None), ("dtype", None)],
    "np.array": [("object", 0), ("dtype", None), ("copy", True), ("order", "K"), ("subok", False), ("ndmin", 0)],
    "np.asarray": [("a", 0), ("dtype", None), ("order", None)],
    "np.zeros": [("shape", 0), ("dtype", None), ("order", "C")],
    "np.empty": [("shape", 0), ("dtype", None), ("order", "C")],
    "np.ones": [("shape", 0), ("dtype", None), ("order", "C")],
    "np.bincount": [("x", 0), ("weights", None), ("minlength", 0)],
    "np.where": [("condition", 0), ("x", None), ("y", None)],
    "np.concatenate": [("arrays", 0), ("axis", 0), ("out", None)],
    "np.dot": [("a", 0), ("b", 0), ("out", None)],
    "np.fromfile": [("file", 0), ("dtype", None), ("count", -1), ("sep", ""), ("offset", 0)],
    "np.ravel_multi_index": [("multi_index", 0), ("dims", 0), ("mode", "raise"), ("order", "C")],
    "np.unravel_index": [("indices", 0), ("shape", 0), ("order", "C")],
    "np.histogram": [("a", 0), ("bins", 10), ("range", None), ("density", None), ("weights", None)],
    "sorted": [("iterable", 0), ("key", None), ("reverse", False)],
    "enumerate": [("iterable", 0), ("start", 0)],
    "astype": [("x", 0), ("dtype", 0)],
    "open": [("file", 0), ("mode", "r"), ("buffering", -1), ("encoding", None)],
    "scipy.ndimage.gaussian_filter": [("input", 0), ("sigma", 0), ("order", 0), ("output", None)],
    "np.empty_like": [("prototype", 0), ("dtype", None)],
}
REQ = object()


@functools.lru_cache(None)
def signature(name):
    """[(param, default|REQ)] or None"""
    if name in MANUAL_SIGS:
        out = []
        for n, d in MANUAL_SIGS[name]:
            out.append((n, REQ if d == 0 and d is not False and n not in (
                "minlength", "ndmin", "axis", "offset", "start", "order", "step") else d))
        return out
    parts = name.split(".")
    if parts[0] == "np":
        mod = "numpy"
        rest = parts[1:]
    elif parts[0] == "scipy":
        mod = ".".join(parts[:-1])
        rest = parts[-1:]
    else:
        return None
    try:
        import importlib

        if parts[0] == "np":
            o = importlib.import_module("numpy")
            for p in rest:
                o = getattr(o, p)
        else:
            o = getattr(importlib.import_module(mod), rest[0])
        if type(o).__name__ == "ufunc":
            return None
        sig = inspect.signature(o)
    except Exception:
        return None
    out = []
    for p in sig.parameters.values():
        if p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD):
            return None
        d = p.default
        if d is inspect.Parameter.empty:
            out.append((p.name, REQ))
        else:
            tn = type(d).__name__
            out.append((p.name, d if isinstance(d, (int, float, str, bool, type(None))) and "NoValue" not in tn else "<nv>"))
    return out


def kv(name, t):
    return raw("kv", tm.field(name), t)


def kw_of(t, name, default=None):
    for a in t.args:
        if isinstance(a, T) and a.op == "kv" and a.args[0].op == "field" and a.args[0].args[0] == name:
            return a.args[1]
    return default


def bind(name, args, kwargs):
    """raw call term with canonical argument order and defaults dropped"""
    if name == "m.split" and len(args) == 1 and not kwargs:
        args = [unstrip(args[0])]
    sig = signature(name)
    if sig is None or len(args) > len(sig):
        return raw(name, *(list(args) + [kv(k, kwargs[k]) for k in sorted(kwargs)]))
    vals = {}
    for (p, d), a in zip(sig, args):
        vals[p] = a
    names = [p for p, _ in sig]
    extra = {}
    for k, v in kwargs.items():
        if k in names:
            vals[k] = v
        else:
            extra[k] = v
    out = []
    positional = True
    for p, d in sig:
        if p not in vals:
            if d is REQ:
                positional = False
            continue
        v = vals[p]
        if p == "dtype":
            v = canon_dtype(v)
        if d is REQ and positional:
            out.append(v)
        else:
            if d is not REQ and d != "<nv>":
                try:
                    if const(d) is v:
                        continue
                except Exception:
                    pass
            out.append(kv(p, v))
    for k in sorted(extra):
        out.append(kv(k, extra[k]))
    return raw(name, *out)


# ------------------------------------------------------------------ shapes
def delitem(c, i):
    """c after `del c[i]`"""
    if c.op == "dict" and all(a.op == "kv" and is_const(a.args[0]) for a in c.args) and any(a.args[0] is i for a in c.args):
        return raw("dict", *[a for a in c.args if a.args[0] is not i])
    return raw("delitem", c, i)


def length(x):
    if x.op in ("list", "tuple"):
        return const(len(x.args))
    if x.op == "dict" and all(a.op == "kv" for a in x.args):
        return const(len(x.args))
    if x.op == "const" and x.args[0] == "str":
        return const(len(x.args[1]))
    if x.op == "select" and x.args[1].op == "field" and x.args[1].args[0] == "shape":
        return raw("select", x.args[0], tm.field("ndim"))
    if x.op == "store":
        return length(x.args[0]) if x.args[1].op != "field" else raw("len", x)
    if x.op in ("np.zeros", "np.ones", "np.empty", "np.full"):
        s = x.args[0]
        if s.op == "tuple" and s.args:
            return s.args[0]
        if s.op != "tuple" and s.op != "list" and (is_num(s) or s.op in ("len", "add", "mul")):
            return s
    if x.op in ("np.zeros_like", "np.ones_like", "np.empty_like", "astype", "np.array", "sorted", "np.sort",
                "np.cumsum0"):
        return length(x.args[0])
    if x.op == "listcomp" and x.args[2] is TRUE:
        return x.args[0]
    if x.op == "np.arange" and len(x.args) == 2 and x.args[0] is ZERO:
        return x.args[1]
    if x.op == "range" and x.args[0] is ZERO and x.args[2] is ONE:
        return x.args[1]
    if x.op == "append":
        return add(length(x.args[0]), ONE)
    if x.op == "concat":
        return add(*[length(a) for a in x.args])
    if x.op == "ite":
        return ite(x.args[0], length(x.args[1]), length(x.args[2]))
    if x.op == "tolist" and tm.plain_seq(x.args[0]):
        return length(x.args[0])
    r = x.args[0] if x.op == "tolist" else x
    if r.op == "range" and len(r.args) == 3 and r.args[0] is ZERO and r.args[2] is ONE and (
            r.args[1].op == "len" or (int_of(r.args[1]) or -1) >= 0):
        return r.args[1]
    return raw("len", x)



def shape_of(x):
    """attr(x, 'shape') simplified, or None"""
    if x.op in ("np.zeros", "np.ones", "np.empty", "np.full"):
        s = x.args[0]
        if s.op == "tuple":
            return s
        if s.op == "list":
            return raw("tuple", *s.args)
    if x.op in ("np.zeros_like", "np.ones_like", "np.empty_like", "astype", "np.abs", "np.exp", "np.sqrt"):
        return attr_shape(x.args[0])
    if x.op == "store" and x.args[1].op != "field":
        return attr_shape(x.args[0])
    if x.op == "ite":
        if x.args[1] is tm.UNDEF or x.args[2] is tm.UNDEF:
            return attr_shape(x.args[2] if x.args[1] is tm.UNDEF else x.args[1])
        return ite(x.args[0], attr_shape(x.args[1]), attr_shape(x.args[2]))
    if x.op in ("mul", "add"):
        # operands of one and the same shape
        ss = {attr_shape(a) for a in x.args if not is_num(a)}
        return ss.pop() if len(ss) == 1 else None
    if x.op == "select" and x.args[0].op == "listcomp" and x.args[0].args[2] is TRUE and (
            x.args[1].op == "bv" or x.args[1].op == "lv" and x.args[1].args[0] == "k"):
        c = x.args[0]
        return attr_shape(tm.subst(c.args[1], {raw("bv", int(c.args[3].args[1]), 0): x.args[1]}))
    return None


def attr_shape(x):
    s = shape_of(x)
    return s if s is not None else attr(x, "shape")


UNARY = {"np.exp", "np.log", "np.log10", "np.log2", "np.sin", "np.cos", "np.tan", "np.arcsin", "np.arccos",
         "np.arctan", "np.sinh", "np.cosh", "np.tanh", "np.floor", "np.ceil", "np.trunc", "np.rint", "np.sign",
         "np.isnan", "np.isinf", "np.isfinite", "np.conjugate", "np.real", "np.imag", "np.angle", "np.log1p",
         "np.expm1", "np.spacing"}

ORDER_FREE_REDUCE = {"np.sum", "np.mean", "np.max", "np.min", "np.any", "np.all", "np.std", "np.var"}


def seq_items(t):
    if t.op in ("list", "tuple"):
        return list(t.args)
    if t.op == "np.array" and t.args[0].op in ("list", "tuple") and len(t.args) == 1:
        return list(t.args[0].args)
    return None


LOGICAL = {"np.logical_and": 2, "np.logical_or": 2, "np.logical_xor": 2, "np.logical_not": 1}
STRIPS = ("m.strip", "m.rstrip", "m.lstrip")


def unstrip(a):
    """numbers and words are read the same with and without surrounding blanks"""
    while a.op in STRIPS and len(a.args) == 1:
        a = a.args[0]
    return a


def call(name, args, kwargs):
    """Value term of an external call with pure semantics."""
    name = canon_name(name)
    n = len(args)
    a0 = args[0] if n else None

    if kwargs.get("out") is not None and kwargs["out"] is NONE:
        kwargs = {k: v for k, v in kwargs.items() if k != "out"}
    if "dtype" in kwargs:
        kwargs = dict(kwargs)
        kwargs["dtype"] = canon_dtype(kwargs["dtype"])
        if kwargs["dtype"] is NONE:
            del kwargs["dtype"]

    if name in ("set", "frozenset") and not kwargs:
        if n == 0:
            return raw("set")
        if n == 1:
            if a0.op in ("list", "tuple", "set"):
                return raw("set", *sorted(set(a0.args), key=tm.skey))
            return raw("setof", a0)
    if name in LOGICAL:
        args = [a.args[0] if a.op == "npout" and k < LOGICAL[name] else a for k, a in enumerate(args)]
        a0 = args[0] if n else None
    if name in LOGICAL and set(kwargs) <= {"out"} and n + len(kwargs) == LOGICAL[name] + 1:
        # element-wise Boolean result stored in (and typed as) the given array
        o = kwargs.get("out", args[-1])
        r = call(name, args[:LOGICAL[name]], {})
        return r if o is NONE else raw("npout", r, o)
    if name.startswith("np.") and not kwargs:
        if name == "np.logical_xor" and n == 2:
            return OR(AND(a0, NOT(args[1])), AND(NOT(a0), args[1]))
        if name == "np.add" and n == 2:
            return add(*args)
        if name == "np.subtract" and n == 2:
            return sub(*args)
        if name == "np.multiply" and n == 2:
            return mul(*args)
        if name == "np.divide" and n == 2:
            return div(*args)
        if name == "np.power" and n == 2:
            return power(*args)
        if name == "np.square" and n == 1:
            return power(a0, const(2))
        if name == "np.sqrt" and n == 1:
            return power(a0, HALF)
        if name == "np.cbrt" and n == 1:
            return power(a0, const(tm.Fraction(1, 3)))
        if name == "np.reciprocal" and n == 1:
            return power(a0, MINUS)
        if name == "np.negative" and n == 1:
            return neg(a0)
        if name == "np.positive" and n == 1:
            return a0
        if name == "np.floor_divide" and n == 2:
            return floordiv(*args)
        if name == "np.mod" and n == 2:
            return mod(*args)
        if name == "np.hypot" and n == 2:
            return power(add(power(args[0], const(2)), power(args[1], const(2))), HALF)
        if name == "np.deg2rad" and n == 1:
            return mul(a0, PI, const(tm.Fraction(1, 180)))
        if name == "np.rad2deg" and n == 1:
            return mul(a0, const(180), power(PI, MINUS))
        if name == "np.log10" and n == 1:
            return raw("np.log10", a0)
        if name == "np.abs" and n == 1:
            return absv(a0)
        if name in ("np.less", "np.less_equal", "np.greater", "np.greater_equal", "np.equal", "np.not_equal") and n == 2:
            return compare(name[3:], *args)
        if name == "np.logical_and" and n == 2:
            return AND(*args)
        if name == "np.logical_or" and n == 2:
            return OR(*args)
        if name == "np.logical_not" and n == 1:
            return NOT(a0)
        if name == "np.invert" and n == 1:
            return NOT(a0) if is_bool(a0) else raw("np.invert", a0)
        if name == "np.bitwise_and" and n == 2:
            return band(*args)
        if name == "np.bitwise_or" and n == 2:
            return bor(*args)
        if name in ("np.maximum", "np.minimum") and n == 2:
            return minmax("max" if name == "np.maximum" else "min", args)
        if name == "np.copy" and n == 1:
            return a0
        if name in ("np.float64", "np.float32", "np.double") and n == 1 and name != "np.float32":
            return raw("float", a0) if not is_num(a0) else a0
        if name in ("np.int64", "np.int32", "np.int_") and n == 1:
            return toint(a0)
        if name == "np.shape" and n == 1:
            return attr_shape(a0)
        if name == "np.size" and n == 1:
            return attr(a0, "size")
        if name == "np.ndim" and n == 1:
            return attr(a0, "ndim")
        if name == "np.where" and n == 3:
            return ite(*args)
        if name == "np.where" and n == 1:
            return raw("np.nonzero", a0)
        if name == "np.flatnonzero" and n == 1:
            return select(raw("np.nonzero", raw("np.ravel", a0)), ZERO)
        if name == "np.clip" and n == 3:
            r = a0
            if args[1] is not NONE:
                r = minmax("max", [r, args[1]])
            if args[2] is not NONE:
                r = minmax("min", [r, args[2]])
            return r
        if name == "np.outer" and n == 2:
            return raw("np.outer", *args)
        if name == "np.dtype" and n == 1:
            return canon_dtype(a0)
    if name in ("np.asarray", "np.array") and n >= 1:
        dt = kwargs.get("dtype", args[1] if n > 1 else None)
        if "ndmin" in kwargs:
            return bind(name, args, kwargs)
        x = a0
        if x.op == "tuple" and name == "np.array":
            x = raw("list", *x.args)
        if x.op in ("list", "listcomp", "tuple") or x.op in ("fix", "wfix") and x.args[x.op == "fix"].args[0].op == "list":
            x = raw("np.array", raw("list", *x.args) if x.op == "tuple" else x)
        if dt is not None and dt is not NONE:
            return astype(x, dt)
        return x
    if name == "np.arange" and n >= 1 or name == "np.arange" and "stop" in kwargs:
        kw = dict(kwargs)
        dt = kw.pop("dtype", None)
        if n == 1 and "stop" not in kw:
            lo, hi, st = ZERO, args[0], ONE
        else:
            lo = args[0] if n else kw.get("start", ZERO)
            hi = args[1] if n > 1 else kw.get("stop", NONE)
            st = args[2] if n > 2 else kw.get("step", ONE)
        r = arange(lo, hi, st)
        return r if dt is None else astype(r, dt)
    if name == "np.linspace":
        return bind(name, args, kwargs)
    if name in ("np.max", "np.min", "max", "min") and n == 1 and not kwargs:
        it = seq_items(a0)
        if it:
            return minmax(name[-3:], it)
        return raw("np." + name[-3:], a0)
    if name in ("max", "min") and n >= 2 and not kwargs:
        return minmax(name, list(args))
    if name in ("np.sum", "sum") and n == 1 and not kwargs:
        it = seq_items(a0)
        if it is not None and len(it) <= 64:
            return add(*it) if it else ZERO
        if a0.op == "listcomp":
            return sumcomp(a0)
        return raw("np.sum", a0)
    if name == "sum" and n == 2:
        return add(args[1], call("sum", [a0], {}))
    if name in ("any", "all") and n == 1:
        it = seq_items(a0)
        if it is not None:
            return OR(*it) if name == "any" else AND(*it)
        return raw("np." + name, a0)
    if name == "abs" and n == 1:
        return absv(a0)
    if name == "len" and n == 1:
        return length(a0)
    if name == "range":
        if n == 1:
            return raw("range", ZERO, a0, ONE)
        if n == 2:
            return raw("range", args[0], args[1], ONE)
        if n == 3:
            return raw("range", *args)
    if name == "slice":
        a = [NONE, a0, NONE] if n == 1 else list(args) + [NONE] * (3 - n)
        return raw("slice", *a)
    if name == "float" and n == 1:
        a0 = unstrip(a0)
        if is_num(a0):
            return a0
        return raw("float", a0)
    if name == "int" and n == 1:
        return toint(a0)
    if name == "bool" and n == 1:
        return a0 if is_bool(a0) else ite(a0, TRUE, FALSE)
    if name == "pow" and n == 2:
        return power(*args)
    if name == "divmod" and n == 2:
        return raw("tuple", floordiv(*args), mod(*args))
    if name in ("list", "tuple") and n == 1:
        it = seq_items(a0)
        if it is not None and a0.op != "np.array":
            return raw(name, *it)
        if a0.op in ("listcomp",):
            return a0
        if a0.op == "zipl":
            return a0
        if a0.op == "ite" and tm.plain_seq(a0):
            return ite(a0.args[0], call(name, [a0.args[1]], {}), call(name, [a0.args[2]], {}))
        return raw("tolist", a0)
    if name == "list" and n == 0:
        return raw("list")
    if name == "tuple" and n == 0:
        return raw("tuple")
    if name == "dict" and n == 1 and a0.op in ("list", "tuple") and all(
            x.op in ("tuple", "list") and len(x.args) == 2 for x in a0.args):
        d = {}
        for x in a0.args:
            d[x.args[0]] = x.args[1]
        d.update({const(k): v for k, v in kwargs.items()})
        return raw("dict", *[raw("kv", k, v) for k, v in d.items()])
    if name == "dict" and n == 0:
        return raw("dict", *[raw("kv", const(k), v) for k, v in kwargs.items()])
    if name == "str" and n == 1 and a0.op == "select" and tm.is_str(a0):
        return a0
    if name == "str" and n == 1:
        s = tm.str_of(a0)
        return a0 if s is not None else raw("str", a0)
    if name in ("zip", "itertools.izip"):
        its = [seq_items(a) if a.op in ("list", "tuple") else tm.vec(a) for a in args]
        if all(i is not None for i in its) and its:
            return raw("list", *[raw("tuple", *x) for x in zip(*its)])
        return raw("zip", *args)
    if name == "enumerate" and n >= 1:
        st = args[1] if n > 1 else kwargs.get("start", ZERO)
        if a0.op in ("list", "tuple"):
            return raw("list", *[raw("tuple", add(st, const(k)), x) for k, x in enumerate(a0.args)])
        return raw("enumerate", a0, st)
    if name == "reversed" and n == 1:
        if a0.op in ("list", "tuple"):
            return raw(a0.op, *reversed(a0.args))
        return raw("reversed", a0)
    if name in ("iter", "tqdm.tqdm") and n == 1:
        return a0
    if name == "isinstance" and n == 2:
        if args[1].op == "tuple":
            return OR(*[isinst(a0, x) for x in args[1].args])
        return isinst(a0, args[1])
    if name == "__flat__" and n == 1:
        # the buffer behind an array (contiguous: a rule of its own)
        if a0.op == "np.zeros" and len(a0.args) == 1:
            d = list(a0.args[0].args) if a0.args[0].op == "tuple" else [a0.args[0]]
            return call("np.zeros", [tm.mul(*d)], {})
        if a0.op == "astype":
            return a0       # the coordinates: one-dimensional
        return call("np.ravel", [a0], {})
    if name == "np.argsort" and n == 1:
        it = list(a0.args) if a0.op == "list" else tm.vec(a0)
        if it and all(int_of(x) is not None for x in it):
            return raw("np.array", raw("list", *[const(k) for k in sorted(range(len(it)), key=lambda k: int_of(it[k]))]))
    if name in ("np.array", "np.asarray") and n == 1 and not kwargs and a0.op == "tuple" and tm.vec(raw("np.array", a0)) is not None:
        return raw("np.array", raw("list", *a0.args))
    if name == "np.ravel" and n == 1 and not kwargs:
        if a0.op == "np.ravel" or tm.vec(a0) is not None:
            return a0
        if tm.scalar(a0):
            return raw("np.array", raw("list", a0))
        return raw("np.ravel", a0)
    if name == "np.reshape" and n == 2 and not kwargs:
        s = args[1]
        if int_of(s) == -1 or (s.op in ("tuple", "list") and len(s.args) == 1 and int_of(s.args[0]) == -1):
            return call("np.ravel", [a0], {})
        return raw("np.reshape", a0, raw("tuple", *s.args) if s.op == "list" else s)
    if name == "np.transpose" and n == 1 and not kwargs:
        return attr(a0, "T")
    if name == "np.mean" and n == 1 and not kwargs:
        it = seq_items(a0)
        if it:
            return div(add(*it), const(len(it)))
        return raw("np.mean", a0)
    if name in ("np.zeros", "np.ones", "np.empty") and n >= 1:
        a = list(args)
        if a[0].op == "list":
            a[0] = raw("tuple", *a[0].args)
        if a[0].op == "tuple" and len(a[0].args) == 1:
            a[0] = a[0].args[0]
        kw = dict(kwargs)
        if len(a) > 1:
            kw["dtype"] = canon_dtype(a[1])
            a = a[:1]
        if kw.get("dtype") is raw("dtype", "float64"):
            del kw["dtype"]
        return bind(name, a, kw)
    if name == "np.diff" and n == 1 and not kwargs:
        return sub(select(a0, raw("slice", ONE, NONE, NONE)), select(a0, raw("slice", NONE, MINUS, NONE)))
    if name in UNARY and n == 1 and not kwargs:
        return raw(name, a0)
    if name == "np.ptp":
        return sub(call("np.max", args, kwargs), call("np.min", args, kwargs))
    if name == "np.linalg.norm" and n == 1 and set(kwargs) == {"axis"} and tm.int_of(kwargs["axis"]) is not None:
        return power(call("np.sum", [power(a0, const(2))], kwargs), HALF)
    return bind(name, args, kwargs)


def isinst(x, t):
    if x.op == "const":
        k = x.args[0]
        nm = t.args[0] if t.op == "ext" else None
        if k == "none":
            return FALSE
        if k == "str" and nm in ("str", "int", "float", "list", "tuple", "dict"):
            return const(nm == "str")
    if t.op == "ext" and t.args[0] in ("six.string_types", "str"):
        t = raw("ext", "str")
    return raw("isinstance", x, t)


def sumcomp(c):
    """sum over a comprehension: 'bigsum'(count, body, cond)"""
    return raw("bigsum", *c.args)


def absv(a):
    n = num_of(a)
    if n is not None:
        return const(abs(n))
    if a.op == "mul" and is_num(a.args[0]) and a.args[0].args[1] < 0:
        return absv(neg(a)) if a.args[0].args[1] == -1 else raw("np.abs", neg(a))
    if a.op == "np.abs":
        return a
    if a.op == "add":
        b = neg(a)
        if tm.skey(b) < tm.skey(a):
            a = b
    return raw("np.abs", a)


def toint(a):
    a = unstrip(a)
    n = num_of(a)
    if n is not None:
        return const(int(n))
    if tm.int_valued(a):
        return a
    return raw("int", a)


def astype(x, dt):
    dt = canon_dtype(dt)
    if dt.op == "dtype" and dt.args[0] == "float64" and x.op in ("np.zeros", "np.ones"):
        return x
    if x.op == "astype" and x.args[1] is dt:
        return x
    v = tm.vec(x)
    if v is not None and dt.op == "dtype":
        if dt.args[0] == "float64":
            return x
        if dt.args[0] in ("int32", "int64"):
            return raw("np.array", raw("list", *[toint(a) for a in v]))
    return raw("astype", x, dt)


def arange(lo, hi, st):
    n = num_of(st)
    if st is ONE and lo is ZERO:
        return raw("np.arange", ZERO, hi)
    if st is ONE:
        return add(lo, raw("np.arange", ZERO, sub(hi, lo)))
    return raw("np.arange", lo, hi, st)


def full_like(x, v):
    """x.fill(v): every element replaced, shape and type kept"""
    z = x
    while True:
        if z.op == "store" and z.args[1].op != "field":
            z = z.args[0]
        elif z.op == "fix" and z.args[1].op == "tuple" and len(z.args[1].args) == 1:
            b = z.args[2].args[0]
            if not keeps_shape(b):
                break
            z = z.args[1].args[0]
        else:
            break
    if num_of(v) == 0 and z.op == "np.zeros":
        return z
    return raw("np.full_like", x, v)


def keeps_shape(b):
    if b.op == "ite":
        return keeps_shape(b.args[1]) and keeps_shape(b.args[2])
    if b.op == "store" and b.args[1].op != "field":
        return keeps_shape(b.args[0])
    return b.op == "bv"


def minmax(op, items):
    out = []
    for t in items:
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    nums = [num_of(t) for t in out if num_of(t) is not None]
    rest = []
    for t in out:
        if num_of(t) is None and t not in rest:
            rest.append(t)
    if nums:
        rest.append(const(max(nums) if op == "max" else min(nums)))
    if len(rest) == 1:
        return rest[0]
    rest.sort(key=tm.skey)
    return raw(op, *rest)


def band(a, b):
    if is_bool(a) and is_bool(b):
        return AND(a, b)
    xs = sorted([a, b], key=tm.skey)
    return raw("bitand", *xs)


def bor(a, b):
    if is_bool(a) and is_bool(b):
        return OR(a, b)
    xs = sorted([a, b], key=tm.skey)
    return raw("bitor", *xs)


def compare(op, a, b):
    return {"less": lt, "less_equal": le, "greater": lambda x, y: lt(y, x),
            "greater_equal": lambda x, y: le(y, x), "equal": eq,
            "not_equal": lambda x, y: NOT(eq(x, y))}[op](a, b)


tm.register("max", lambda *a: minmax("max", list(a)))
tm.register("min", lambda *a: minmax("min", list(a)))
tm.register("np.abs", absv)
tm.register("int", toint)
tm.register("len", length)
tm.canon_dt = canon_dtype
