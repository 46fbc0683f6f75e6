"""Gated value-graph construction.

A function body is turned, by one structured pass over its syntax tree, into
terms for: the returned value, the condition under which each exception is
raised, the values yielded, and the final contents of every object reachable
from the parameters.  Branches are merged with gates (ite), loops become
first-class fix-point nodes sliced per output, calls to functions of the
analysed program are inlined, external calls are uninterpreted (npmodel).
"""
from __future__ import annotations

import ast

from . import npmodel as npm
from . import terms as tm
from .front import AnalysisBroken, dotted_name, import_targets
from .terms import (AND, FALSE, MINUS, NONE, NOT, ONE, OR, T, TRUE, UNDEF, ZERO, add, attr, const, div, eq,
                    field, floordiv, fresh, int_of, is_bool, is_const, is_none, is_num, is_seq, is_str, ite, le,
                    lt, mod, mul, neg, power, raw, select, store, str_of, sub, var)


LIMITS = {("float64", "eps"): 2.0 ** -52, ("float32", "eps"): 2.0 ** -23, ("float64", "tiny"): 2.0 ** -1022, ("float64", "max"): (2 - 2.0 ** -52) * 2.0 ** 1023,
          ("float64", "min"): -(2 - 2.0 ** -52) * 2.0 ** 1023, ("int64", "max"): 2 ** 63 - 1, ("int64", "min"): -2 ** 63, ("int32", "max"): 2 ** 31 - 1, ("int32", "min"): -2 ** 31}


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class St:
    __slots__ = ("vars", "heap")

    def __init__(self, vars=None, heap=None):
        self.vars = vars if vars is not None else {}
        self.heap = heap if heap is not None else {}

    def copy(self):
        return St(dict(self.vars), dict(self.heap))


def leaf(kind, payload=None):
    return ("leaf", kind, payload)


FALL = leaf("fall")


def tree_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    return ("ite", c, a, b)


def tree_cond(tree, pred):
    memo = {}

    def go(t):
        k = id(t)
        if k in memo:
            return memo[k][1]
        if t[0] == "leaf":
            r = TRUE if pred(t[1], t[2]) else FALSE
        else:
            a, b = go(t[2]), go(t[3])
            r = ite(t[1], a, b)
        memo[k] = (t, r)
        return r

    return go(tree)


def tree_subst_fall(tree, rest, kinds=("fall",)):
    memo = {}

    def go(t):
        k = id(t)
        if k in memo:
            return memo[k][1]
        if t[0] == "leaf":
            r = rest if t[1] in kinds else t
        else:
            r = tree_ite(t[1], go(t[2]), go(t[3]))
        memo[k] = (t, r)
        return r

    return go(tree)


def tree_kinds(tree):
    out = set()
    seen = set()
    stack = [tree]
    while stack:
        t = stack.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        if t[0] == "leaf":
            out.add(t[1])
        else:
            stack.extend((t[2], t[3]))
    return out


class Summary:
    def __init__(self):
        self.ret = NONE
        self.raises = {}       # exc name -> condition
        self.effects = {}      # access path term -> final content
        self.yields = None
        self.params = []
        self.defaults = {}
        self.notes = []
        self.is_gen = False
        self.world = None
        self.files = None


PURE_ATTRS = {"shape", "size", "dtype", "ndim", "T", "real", "imag", "nbytes", "itemsize", "flat"}

ARRAYISH = {"np.zeros", "np.ones", "np.array", "np.zeros_like", "np.ones_like", "np.empty", "np.full",
            "list", "listcomp", "append", "store", "np.empty_like", "repeat", "dict", "np.arange", "fix", "astype"}

FRESH = {"np.zeros", "np.ones", "np.array", "np.zeros_like", "np.ones_like", "np.empty", "np.full", "np.full_like",
         "list", "listcomp", "np.empty_like", "repeat", "dict", "np.arange", "dictcomp", "np.copy"}

FOLDED = ("lower", "upper", "split", "replace", "strip", "startswith", "endswith", "capitalize", "title")
LEAFY = ("var", "select", "attr", "lv", "bv")
IGNORED_CALLS = ("logging.", "warnings.", "print", "sys.stdout", "logger.")

WORLD = raw("var", "<world>")
FILES = raw("var", "<files>")       # everything written to files so far, in order

INPLACE_FUNCS = {"np.copyto": 0, "np.put": 0, "np.fill_diagonal": 0, "np.place": 0, "np.putmask": 0,
                 "np.add.at": 0, "np.random.shuffle": 0, "random.shuffle": 0, "np.subtract.at": 0}

EFFECT_FUNCS = {"np.seterr", "np.random.seed", "np.fromfile", "netCDF4.Dataset"}

FILE_FUNCS = {"np.save", "np.savetxt", "os.remove", "os.rename", "os.makedirs", "os.mkdir", "os.unlink", "shutil.move",
              "shutil.copy", "np.savez", "pickle.dump", "json.dump"}


class Ctx:
    """One function activation."""

    def __init__(self, b, func, mod, depth, closure=None):
        self.b = b
        self.func = func
        self.mod = mod
        self.depth = depth
        self.closure = closure
        self.local_imports = {}
        self._stored = None
        self.ykey = None
        self.globals_decl = set()
        self.nonlocals = set()

    def read_after(self, v, loop):
        """the variable is read after this loop"""
        node = self.func.node if self.func is not None and self.closure is None else None
        end = getattr(loop, "end_lineno", None)
        if node is None or end is None:
            return False
        inside = {id(x) for x in ast.walk(loop)}
        return any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) and x.lineno >= loop.lineno and id(x) not in inside
                   for x in ast.walk(node))

    def stored(self):
        """names this activation's own code assigns"""
        if self._stored is None:
            r = set()
            node = self.func.node if self.func is not None and self.closure is None else None
            if node is not None:
                stack = list(node.body)
                while stack:
                    x = stack.pop()
                    if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp,
                                      ast.GeneratorExp)):
                        continue
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        r.add(x.id)
                    stack.extend(ast.iter_child_nodes(x))
                r -= self.globals_decl
            self._stored = r
        return self._stored


def gated(upd, sy, leaf):
    """(condition, value) when upd either leaves sy alone or adds one value"""
    if upd is sy:
        return FALSE, None
    v = leaf(upd)
    if v is not None:
        return TRUE, v
    if upd.op == "ite":
        a, b = gated(upd.args[1], sy, leaf), gated(upd.args[2], sy, leaf)
        if a is None or b is None:
            return None
        c = upd.args[0]
        cond = OR(AND(c, a[0]), AND(NOT(c), b[0]))
        return cond, b[1] if a[1] is None else a[1] if b[1] is None else ite(c, a[1], b[1])
    return None


class Builder:
    def __init__(self, prog, opaque=(), max_depth=12, budget=400000):
        self.prog = prog
        self.opaque = set(opaque)
        self.max_depth = max_depth
        self.budget = budget
        self.closures = {}
        self.glob_cache = {}
        self.stack = []
        self.notes = []
        self.pending = None
        self.visited_funcs = set()
        self.loc = 0
        self.steps = 0

    # ---------------------------------------------------------------- state
    def newloc(self, st, content):
        self.loc += 1
        st.heap[self.loc] = content
        return raw("ref", self.loc)

    def content(self, st, ref):
        loc = ref.args[0]
        if loc in st.heap:
            return st.heap[loc]
        if isinstance(loc, T):
            return loc
        return UNDEF

    def dr(self, st, t, _busy=None):
        """deep dereference: the current value as a pure term"""
        memo = {}
        busy = set()

        def go(t):
            if t in memo:
                return memo[t]
            if t.op == "ref":
                loc = t.args[0]
                if loc in busy:
                    return raw("sym", "cycle")
                busy.add(loc)
                c = self.content(st, t)
                if c.op == "obj" and isinstance(loc, int):
                    r = go(self.obj_term(st, loc, c))
                else:
                    r = c if (isinstance(loc, T) and c is loc) else go(c)
                if isinstance(loc, T):
                    r = self._with_sublocs(st, loc, r, go, busy)
                busy.discard(loc)
            elif t.op == "view":
                r = go(t.args[1])
            elif t.op == "closure":
                r = self.closure_term(st, t)
            elif not any(isinstance(a, T) for a in t.args):
                r = t
            elif not has_ref(t):
                r = t
            else:
                na = [go(a) if isinstance(a, T) else a for a in t.args]
                r = tm.rebuild(t.op, na)
            memo[t] = r
            return r

        return go(t)

    def obj_term(self, st, loc, c):
        """a local object with its attribute slots filled in"""
        for k in sorted((k for k in st.heap if isinstance(k, tuple) and k[1] == loc), key=lambda k: k[2]):
            c = store(c, field(k[2]), st.heap[k])
        return c

    def _with_sublocs(self, st, loc, r, go, busy):
        subs = [l for l in st.heap if isinstance(l, T) and l.op == "select" and l.args[0] is loc
                and st.heap[l] is not l and l not in busy]
        subs.sort(key=tm.skey)
        for l in subs:
            cur = select(r, l.args[1])
            if cur is l:
                r = store(r, l.args[1], go(raw("ref", l)))
        return r

    def merge(self, c, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        vs = {}
        for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
            x, y = a.vars.get(k, UNDEF), b.vars.get(k, UNDEF)
            vs[k] = x if x is y else self.phi(c, x, y, a, b)
        hp = {}
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            if k in a.heap and k in b.heap:
                x, y = a.heap[k], b.heap[k]
                hp[k] = x if x is y else self.phi(c, x, y, a, b)
            elif isinstance(k, T):
                x, y = a.heap.get(k, k), b.heap.get(k, k)
                hp[k] = ite(c, x, y)
            else:
                hp[k] = a.heap.get(k, b.heap.get(k))
        return St(vs, hp)

    def phi(self, c, x, y, a, b):
        if x.op == "view":
            x = x.args[1]
        if y.op == "view":
            y = y.args[1]
        return ite(c, x, y)

    # ---------------------------------------------------------------- entry
    def summarise(self, func, names=None):
        s = Summary()
        ctx = Ctx(self, func, func.mod, 0)
        st = St()
        a = func.node.args
        pos = a.posonlyargs + a.args
        names = names or {}
        for k, p in enumerate(pos):
            nm = names.get(k, p.arg)
            s.params.append(p.arg)
            st.vars[p.arg] = raw("ref", var(nm))
        for p in a.kwonlyargs:
            s.params.append(p.arg)
            st.vars[p.arg] = raw("ref", var(p.arg))
        if a.vararg:
            st.vars[a.vararg.arg] = raw("ref", var("*" + a.vararg.arg))
        if a.kwarg:
            st.vars[a.kwarg.arg] = raw("ref", var("**" + a.kwarg.arg))
        nd = len(a.defaults)
        for k, d in enumerate(a.defaults):
            p = pos[len(pos) - nd + k]
            s.defaults[names.get(len(pos) - nd + k, p.arg)] = self.const_expr(d, ctx)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                s.defaults[p.arg] = self.const_expr(d, ctx)
        s.is_gen = is_generator(func.node)
        self.pending = []
        self.unbound = set()
        self.assumes = []
        self.visited_funcs.add(func.name)
        self.stack.append(func.name)
        if s.is_gen:
            ctx.ykey = "<yield:%s>" % func.name
            st.heap[ctx.ykey] = raw("list")
        tree, states = self.block(func.node.body, st, ctx)
        tree, states = self.close(tree, states)
        self.stack.pop()
        s.tree = tree
        rs = states.get("ret")
        if rs is not None:
            s.ret = self.dr(rs, rs.vars["__ret__"])
            for loc in rs.heap:
                if isinstance(loc, T) and rs.heap[loc] is not loc:
                    s.effects[loc] = self.dr(rs, rs.heap[loc])
            if s.is_gen:
                s.yields = self.dr(rs, rs.heap[ctx.ykey])
            if WORLD in s.effects:
                s.world = s.effects.pop(WORLD)
            if FILES in s.effects:
                s.files = s.effects.pop(FILES)
        else:
            s.ret = raw("sym", "noreturn")
        excs = set()
        self._tree_excs(tree, excs)
        for e in excs:
            s.raises[e] = tree_cond(tree, lambda k, p, e=e: k == "raise" and p == e)
        s.notes = list(self.notes)
        s.assumes = list(self.assumes)
        return s

    def _tree_excs(self, tree, out):
        seen = set()
        stack = [tree]
        while stack:
            t = stack.pop()
            if id(t) in seen:
                continue
            seen.add(id(t))
            if t[0] == "leaf":
                if t[1] == "raise":
                    out.add(t[2])
            else:
                stack.extend((t[2], t[3]))

    def close(self, tree, states):
        """falling off the end returns None"""
        if "fall" in states:
            f = states.pop("fall")
            f = f.copy()
            f.vars["__ret__"] = NONE
            cr = tree_cond(tree, lambda k, p: k == "ret")
            states["ret"] = self.merge(cr, states.get("ret"), f)
            tree = tree_subst_fall(tree, leaf("ret"))
        return tree, states

    def const_expr(self, node, ctx):
        st = St()
        try:
            v = self.ev(node, st, ctx)
            return self.dr(st, v)
        except Exception:
            return raw("sym", "default")

    # ----------------------------------------------------------- statements
    def block(self, stmts, st, ctx):
        tree = FALL
        states = {"fall": st}
        # sequential composition
        parts = []
        cur = st
        for s in stmts:
            self.steps += 1
            if self.steps > self.budget or len(tm._table) > 6000000:
                raise Budget()
            saved = self.pending
            self.pending = []
            t, ss = self.stmt(s, cur, ctx)
            for c, e in reversed(self.pending):
                t = tree_ite(c, leaf("raise", e), t)
            self.pending = saved
            parts.append((t, ss))
            cur = ss.get("fall")
            if cur is None:
                break
        # combine from the end
        tree, states = FALL, {}
        if parts and cur is not None:
            states = {"fall": cur}
        elif not parts:
            return FALL, {"fall": st}
        if cur is None:
            tree, states = parts[-1]
            parts = parts[:-1]
            states = dict(states)
        for t, ss in reversed(parts):
            if t is FALL or t == FALL:
                continue
            for kind in ("ret", "brk", "cont"):
                if kind in ss:
                    c = tree_cond(t, lambda k, p, kind=kind: k == kind)
                    states[kind] = self.merge(c, ss[kind], states.get(kind))
            tree = tree_subst_fall(t, tree)
        return tree, states

    def stmt(self, s, st, ctx):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note("unsupported statement %s" % type(s).__name__, s, ctx)
            return FALL, {"fall": st}
        return m(s, st, ctx)

    def note(self, msg, node, ctx):
        self.notes.append("%s at %s:%s" % (msg, ctx.mod.rel, getattr(node, "lineno", "?")))

    def s_Pass(self, s, st, ctx):
        return FALL, {"fall": st}

    def s_Global(self, s, st, ctx):
        ctx.globals_decl.update(s.names)
        return FALL, {"fall": st}

    def s_Nonlocal(self, s, st, ctx):
        ctx.nonlocals.update(s.names)
        return FALL, {"fall": st}

    def s_Import(self, s, st, ctx):
        ctx.local_imports.update(import_targets(s, ctx.mod))
        return FALL, {"fall": st}

    s_ImportFrom = s_Import

    def s_Expr(self, s, st, ctx):
        if isinstance(s.value, ast.Constant):
            return FALL, {"fall": st}
        self.ev(s.value, st, ctx)
        return FALL, {"fall": st}

    def s_FunctionDef(self, s, st, ctx):
        st.vars[s.name] = self.mk_closure(s, st, ctx, s.name)
        return FALL, {"fall": st}

    def s_ClassDef(self, s, st, ctx):
        st.vars[s.name] = raw("sym", "localclass:" + s.name)
        return FALL, {"fall": st}

    def s_Return(self, s, st, ctx):
        v = NONE if s.value is None else self.ev(s.value, st, ctx)
        st.vars["__ret__"] = v
        return leaf("ret"), {"ret": st}

    def s_Raise(self, s, st, ctx):
        name = "Exception"
        if s.exc is None:
            name = "reraise"
        else:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            d = dotted_name(e)
            if d:
                name = d.split(".")[-1]
        return leaf("raise", name), {}

    def s_Assert(self, s, st, ctx):
        c = self.cond(s.test, st, ctx)
        return tree_ite(c, FALL, leaf("raise", "AssertionError")), {"fall": st}

    def s_Break(self, s, st, ctx):
        return leaf("brk"), {"brk": st}

    def s_Continue(self, s, st, ctx):
        return leaf("cont"), {"cont": st}

    def s_Delete(self, s, st, ctx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, ctx)
                i = self.index(t.slice, st, ctx)
                if self.dispatch(st, b, "__delitem__", [i], ctx, t) is None:
                    self.mutate(st, b, lambda c: npm.delitem(c, self.dr(st, i)))
        return FALL, {"fall": st}

    def s_Assign(self, s, st, ctx):
        v = self.ev(s.value, st, ctx)
        v = self.own(st, v, s.value)
        for t in s.targets:
            self.assign(t, v, st, ctx)
        return FALL, {"fall": st}

    def s_AnnAssign(self, s, st, ctx):
        if s.value is not None:
            self.assign(s.target, self.own(st, self.ev(s.value, st, ctx), s.value), st, ctx)
        return FALL, {"fall": st}

    def own(self, st, v, node):
        """give a freshly created aggregate its own location"""
        if v.op in ("ref", "view", "closure", "const", "fn", "clsref", "modref", "ext") or v.op == "ite" and has_ref(v):
            return v
        if v.op in ("tuple", "nt") or is_bool(v):
            return v
        return self.newloc(st, v)

    def own_fields(self, st, v):
        """a record that came out of a generator: its fields are objects"""
        if v.op != "nt" or has_ref(v):
            return v
        return raw("nt", *[raw("kv", kv.args[0], self.own(st, self.own_fields(st, kv.args[1]), None)) for kv in v.args])

    def assign(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            if t.id in ctx.globals_decl:
                g = raw("var", "<global %s.%s>" % (ctx.mod.name, t.id))
                st.heap[g] = self.dr(st, v)
                return
            st.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vv = v
            if vv.op == "ref":
                c = self.content(st, vv)
                if c.op in ("tuple", "list", "nt"):
                    vv = c
            for k, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, self.own(st, select(self.dr(st, vv), raw(
                        "slice", const(k), const(k - n + 1) if k - n + 1 else NONE, NONE)), None), st, ctx)
                    continue
                idx = k if not star or k < star[0] else k - n
                x = self.sub_get(st, vv, const(idx))
                if x.op in FRESH or x.op == "select" and x.args[1].op in ("lt", "le", "eq", "ne", "not", "and", "or", "np.logical_and",
                                                                          "np.logical_or", "np.logical_not", "np.invert") \
                        or x.op.startswith("np.") or x.op in ("add", "mul", "store", "append", "astype", "fix"):
                    x = self.newloc(st, x)
                self.assign(e, x, st, ctx)
        elif isinstance(t, ast.Attribute):
            self.assign_attr(st, self.ev(t.value, st, ctx), t.attr, v, ctx)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, ctx)
            i = self.index(t.slice, st, ctx)
            if self.dispatch(st, b, "__setitem__", [i, v], ctx, t) is not None:
                return
            nb = self.write(st, b, i, v)
            if nb is not None and isinstance(t.value, ast.Name) and b.op == "view":
                st.vars[t.value.id] = nb
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, ctx)

    def dispatch(self, st, b, name, args, ctx, node):
        """the special method of a local object; None when it has none"""
        if b.op != "ref":
            return None
        k = self.obj_class(self.content(st, b))
        m = self.prog.method(k, name) if k is not None else None
        if m is None or self.stack.count(m.name) >= (4 if is_const(args[0]) else 1):
            return None
        return self.inline(m, [b] + args, {}, None, st, ctx, node)

    def assign_attr(self, st, b, name, v, ctx):
        if b.op == "ref":
            k = self.obj_class(self.content(st, b))
            f = self.prog.method(k, name, kind="setters") if k is not None else None
            if f is not None:
                self.inline(f, [b, v], {}, None, st, ctx, None)
                return
        self.write(st, b, field(name), v)

    def write_slot(self, st, b, name, v, guard=None):
        """attribute of a local object; False when b is something else"""
        if b.op == "ite":
            ok1 = self.write_slot(st, b.args[1], name, v, b.args[0] if guard is None else AND(guard, b.args[0]))
            return ok1 and self.write_slot(st, b.args[2], name, v, NOT(b.args[0]) if guard is None else AND(guard, NOT(b.args[0])))
        if b.op != "ref" or not isinstance(b.args[0], int) or self.content(st, b).op != "obj":
            return False
        k = ("slot", b.args[0], name)
        v = self.own(st, v.args[1] if v.op == "view" else v, None)
        if v.op == "ref" and isinstance(v.args[0], int) and self.content(st, v).op == "const":
            v = self.content(st, v)
        st.heap[k] = v if guard is None else ite(guard, v, st.heap.get(k, UNDEF))
        return True

    def write(self, st, b, i, v):
        i = self.dr(st, i)
        if i.op == "field" and self.write_slot(st, b, i.args[0], v):
            return None
        if i.op == "field" or b.op == "ref" and self.content(st, b).op in ("dict", "obj", "list"):
            keep = v if v.op in ("ref", "closure", "tuple", "ite") else self.dr(st, v)
            if keep.op == "ref" and isinstance(keep.args[0], int) and self.content(st, keep).op in ("const",):
                keep = self.content(st, keep)
        else:
            keep = self.dr(st, v)
        if b.op == "view":
            ref, snap, path = b.args[0], b.args[1], b.args[2]
            new = npstore(snap, i, keep)
            self.mutate(st, ref, lambda c: npstore(c, path, npstore(select(c, path), i, keep)))
            return raw("view", ref, new, path)
        self.mutate(st, b, lambda c: npstore(c, i, keep))
        return None

    def mutate(self, st, b, f, guard=None):
        """apply f to the content of the object(s) b may denote"""
        if b.op == "ref":
            c = self.content(st, b)
            n = f(c)
            if guard is not None:
                n = ite(guard, n, c)
            st.heap[b.args[0]] = n
        elif b.op == "view":
            ref, path = b.args[0], b.args[2]
            self.mutate(st, ref, lambda c: npstore(c, path, f(select(c, path))), guard)
        elif b.op == "ite":
            c = b.args[0]
            self.mutate(st, b.args[1], f, c if guard is None else AND(guard, c))
            self.mutate(st, b.args[2], f, NOT(c) if guard is None else AND(guard, NOT(c)))
        elif b.op == "select" or b.op == "var":
            self.mutate(st, raw("ref", b), f, guard)

    def s_AugAssign(self, s, st, ctx):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st, ctx, t)
            rhs = self.dr(st, self.ev(s.value, st, ctx))
            if cur.op == "view":
                new = self.binop(op, cur.args[1], rhs)
                if has_slice(cur.args[2]):
                    self.mutate(st, cur, lambda c: self.binop(op, c, rhs))
                    st.vars[t.id] = raw("view", cur.args[0], new, cur.args[2])
                else:
                    st.vars[t.id] = self.own(st, new, None)
                return FALL, {"fall": st}
            if cur.op == "ref":
                c = self.content(st, cur)
                loc = cur.args[0]
                if (isinstance(loc, T) and loc.op == "select") or (isinstance(loc, int) and c.op in ARRAYISH):
                    st.heap[loc] = self.binop(op, self.dr(st, cur), rhs)
                    return FALL, {"fall": st}
            new = self.binop(op, self.dr(st, cur), rhs)
            if t.id in ctx.globals_decl:
                self.assign(t, new, st, ctx)
            else:
                st.vars[t.id] = self.own(st, new, None)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, ctx)
            cur = self.attr_get(st, b, t.attr)
            rhs = self.dr(st, self.ev(s.value, st, ctx))
            new = self.binop(op, self.dr(st, cur), rhs)
            if cur.op == "ref" and (isinstance(cur.args[0], T) or self.content(st, cur).op in ARRAYISH):
                st.heap[cur.args[0]] = new
            else:
                self.write(st, b, field(t.attr), new)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, ctx)
            i = self.dr(st, self.index(t.slice, st, ctx))
            rhs = self.dr(st, self.ev(s.value, st, ctx))
            cur = self.sub_get(st, b, i)
            new = self.binop(op, self.dr(st, cur), rhs)
            if cur.op == "ref" and isinstance(cur.args[0], int) and self.content(st, cur).op in ARRAYISH:
                st.heap[cur.args[0]] = new
            else:
                nb = self.write(st, b, i, new)
                if nb is not None and isinstance(t.value, ast.Name):
                    st.vars[t.value.id] = nb
        return FALL, {"fall": st}

    def s_If(self, s, st, ctx):
        c = self.cond(s.test, st, ctx)
        if c is TRUE:
            return self.block(s.body, st, ctx)
        if c is FALSE:
            return self.block(s.orelse, st, ctx)
        t1, s1 = self.block(s.body, self.assume(st, s.test, ctx, True), ctx)
        t2, s2 = self.block(s.orelse, st.copy(), ctx)
        states = {}
        for k in ("fall", "ret", "brk", "cont"):
            if k in s1 or k in s2:
                states[k] = self.merge(c, s1.get(k), s2.get(k))
        return tree_ite(c, t1, t2), states

    def assume(self, st, test, ctx, val):
        return st.copy()

    def s_With(self, s, st, ctx):
        for it in s.items:
            v = self.ev(it.context_expr, st, ctx)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, ctx)
        return self.block(s.body, st, ctx)

    def s_Try(self, s, st, ctx):
        pre = st.copy()
        hp = [h for h in s.handlers]
        saved = self.pending
        self.pending = []
        t0, s0 = self.block(list(s.body), st, ctx)
        self.pending = saved
        names = []
        # the digest of what may fail: all values computed by the body
        outs = []
        for k in ("fall", "ret", "brk", "cont"):
            if k in s0:
                for n in sorted(s0[k].vars):
                    if s0[k].vars[n] is not pre.vars.get(n):
                        outs.append(self.dr(s0[k], s0[k].vars[n]))
        imp = sorted({a.name for x in s.body if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names})
        exprs = []
        for x in s.body:
            if isinstance(x, ast.Expr):
                try:
                    p2 = self.pending
                    self.pending = []
                    exprs.append(self.dr(pre, self.ev(x.value, pre.copy(), ctx)))
                    self.pending = p2
                except Unsupported:
                    pass
        digest = raw("digest", *(sorted(set(outs), key=tm.skey) + [const(x) for x in imp] + exprs))
        # explicit raises inside the body that a handler catches
        tree, states = t0, dict(s0)
        if "fall" in states and s.orelse:
            t1, s1 = self.block(s.orelse, states.pop("fall"), ctx)
            for kind in ("ret", "brk", "cont"):
                if kind in s1:
                    c = tree_cond(tree, lambda k, p, kind=kind: k == kind)
                    states[kind] = self.merge(c, states.get(kind), s1[kind])
            if "fall" in s1:
                states["fall"] = s1["fall"]
            tree = tree_subst_fall(tree, t1)
        if s.body and all(isinstance(x, (ast.Import, ast.ImportFrom)) for x in s.body):
            hp = []  # the dependencies are installed: imports do not fail
        for h in reversed(hp):
            ex = "Exception"
            if h.type is not None:
                if isinstance(h.type, ast.Tuple):
                    ex = "|".join(sorted((dotted_name(e) or "?").split(".")[-1] for e in h.type.elts))
                else:
                    ex = (dotted_name(h.type) or "?").split(".")[-1]
            hs = pre.copy()
            if h.name:
                hs.vars[h.name] = raw("sym", "exc:" + ex)
            th, sh = self.block(h.body, hs, ctx)
            atom = raw("raises", const(ex), digest)
            nst = {}
            for k in ("fall", "ret", "brk", "cont"):
                if k in sh or k in states:
                    nst[k] = self.merge(atom, sh.get(k), states.get(k))
            states = nst
            tree = tree_ite(atom, th, tree)
        if s.finalbody:
            for k in list(states):
                sv = states[k]
                r = sv.vars.get("__ret__")
                tf, sf = self.block(s.finalbody, sv, ctx)
                if "fall" in sf:
                    states[k] = sf["fall"]
        return tree, states

    # ---------------------------------------------------------------- loops
    def iter_info(self, it):
        """(count, elem(k)) for an iterable term"""
        if it.op == "range":
            lo, hi, stp = it.args
            n = tm.num_of(stp)
            if n == 1:
                cnt = sub(hi, lo)
            elif n is not None and n < 0 and n == -1:
                cnt = sub(lo, hi)
            else:
                cnt = raw("rangelen", lo, hi, stp)
            return cnt, lambda k: add(lo, mul(stp, k))
        if it.op == "np.arange" and len(it.args) == 2:
            return it.args[1], lambda k: k
        if it.op == "enumerate":
            cnt, el = self.iter_info(it.args[0])
            st0 = it.args[1]
            return cnt, lambda k: raw("tuple", add(st0, k), el(k))
        if it.op == "zip":
            infos = [self.iter_info(a) for a in it.args]
            cnts = []
            for c, _ in infos:
                if c not in cnts:
                    cnts.append(c)
            cnt = cnts[0] if len(cnts) == 1 else raw("ziplen", *sorted(cnts, key=tm.skey))
            return cnt, lambda k: raw("tuple", *[e(k) for _, e in infos])
        if it.op == "reversed":
            cnt, el = self.iter_info(it.args[0])
            return cnt, lambda k: el(sub(sub(cnt, ONE), k))
        if it.op in ("items", "keys", "values"):
            d = it.args[0]
            cnt = npm.length(d)
            key = (lambda k: select(d, k)) if d.op in LEAFY else (lambda k: raw("keyat", d, k))
            if it.op == "keys":
                return cnt, key
            if it.op == "values":
                return cnt, lambda k: select(d, key(k))
            return cnt, lambda k: raw("tuple", key(k), select(d, key(k)))
        if it.op == "listcomp" and it.args[2] is TRUE:
            body = it.args[1]
            h = tm.bvh(body)
            return it.args[0], lambda k: open_lam(it.args[1], it.args[3], [k])
        if it.op == "np.ndindex":
            return raw("ndcount", *it.args), lambda k: raw("ndat", raw("tuple", *it.args), k)
        if it.op in ("dictcomp", "dictupdate"):
            return npm.length(it), lambda k: raw("keyat", it, k)
        return npm.length(it), lambda k: select(it, k)

    def literal_items(self, it, lim=40):
        if it.op in ("list", "tuple") and len(it.args) <= lim:
            return list(it.args)
        if it.op == "range":
            v = [int_of(a) for a in it.args]
            if all(x is not None for x in v):
                r = range(*v)
                if len(r) <= 16:
                    return [const(x) for x in r]
        if it.op in ("items", "keys", "values") and it.args[0].op == "dict" and len(it.args[0].args) <= 40:
            kvs = it.args[0].args
            if it.op == "items":
                return [raw("tuple", a.args[0], a.args[1]) for a in kvs]
            return [a.args[0 if it.op == "keys" else 1] for a in kvs]
        if it.op == "dict" and len(it.args) <= 40:
            return [a.args[0] for a in it.args]
        if it.op in ("zip", "enumerate") and it.args:
            cols = [self.literal_items(a) for a in it.args]
            if all(c is not None for c in cols):
                if it.op == "enumerate":
                    return [raw("tuple", const(k), v) for k, v in enumerate(cols[0])] if len(cols) == 1 else None
                return [raw("tuple", *r) for r in zip(*cols)]
        return None

    def iter_value(self, node, st, ctx):
        v = self.iterated(self.ev(node, st, ctx), st, ctx, node)
        if v.op == "ref":
            c = self.content(st, v)
            if c.op in ("list", "tuple", "dict"):
                return c          # keep inner refs
            return self.dr(st, v)
        if v.op in ("list", "tuple"):
            return v
        if v.op == "view":
            return v.args[1]
        if has_ref(v) and v.op == "zip":
            return v
        return self.dr(st, v)

    def iterated(self, v, st, ctx, node):
        """what iterating over v visits: objects answer through __iter__"""
        if v.op == "ref":
            k = self.obj_class(self.content(st, v))
            if k is not None:
                m = self.prog.method(k, "__iter__")
                if m is not None and self.stack.count(m.name) == 0:
                    return self.inline(m, [v], {}, None, st, ctx, node)
        return v

    def s_For(self, s, st, ctx):
        it = self.iter_value(s.iter, st, ctx)
        if it.op == "range" and all(int_of(a) is not None for a in it.args) and any(
                isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" for b in s.body for x in ast.walk(b)):
            r = range(*[int_of(a) for a in it.args])
            if len(r) <= 40:
                it = raw("list", *[const(k) for k in r])      # attributes by name: one by one
        return self.for_over(s, it, st, ctx)

    def for_over(self, s, it, st, ctx):
        items = self.literal_items(it)
        if items is not None:
            return self.unrolled(s, items, st, ctx)
        if it.op == "ite" and self.partly_literal(it):
            c = it.args[0]
            t1, s1 = self.for_over(s, it.args[1], st.copy(), ctx)
            t2, s2 = self.for_over(s, it.args[2], st.copy(), ctx)
            return tree_ite(c, t1, t2), {k: self.merge(c, s1.get(k), s2.get(k)) for k in ("fall", "ret", "brk", "cont")
                                         if k in s1 or k in s2}
        it = self.dr(st, it)
        cnt, elem = self.iter_info(it)

        def bindk(st2, k):
            e = elem(k)
            self.assign(s.target, self.elem_value(e), st2, ctx)

        return self.loop(s, st, ctx, cnt, bindk, None)

    def partly_literal(self, it, depth=6):
        if it.op == "ite":
            return depth > 0 and any(self.partly_literal(x, depth - 1) for x in it.args[1:])
        return self.literal_items(it, 6) is not None and it.op in ("list", "tuple")

    def elem_value(self, e):
        return e

    def unrolled(self, s, items, st, ctx):
        def go(k, st):
            if k == len(items):
                if s.orelse:
                    return self.block(s.orelse, st, ctx)
                return FALL, {"fall": st}
            self.assign(s.target, items[k], st, ctx)
            t, ss = self.block(s.body, st, ctx)
            # states that continue to the next iteration
            cs = {}
            ccont = tree_cond(t, lambda kd, p: kd == "cont")
            nxt = self.merge(ccont, ss.get("cont"), ss.get("fall"))
            if nxt is None:
                t2, s2 = FALL, {}
            else:
                t2, s2 = go(k + 1, nxt)
            tree = tree_subst_fall(t, t2, ("fall", "cont"))
            states = {}
            cret = tree_cond(t, lambda kd, p: kd == "ret")
            if "ret" in ss or "ret" in s2:
                states["ret"] = self.merge(cret, ss.get("ret"), s2.get("ret"))
            cb = tree_cond(t, lambda kd, p: kd == "brk")
            tree = tree_subst_fall(tree, FALL, ("brk",))
            f = self.merge(cb, ss.get("brk"), s2.get("fall"))
            if f is not None:
                states["fall"] = f
            return tree, states

        return go(0, st)

    def s_While(self, s, st, ctx):
        while isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and isinstance(s.body[0], ast.If):
            # `while True: if c: break; ...` is `while not c: ...`
            h = s.body[0]
            brk = [len(b) == 1 and isinstance(b[0], ast.Break) for b in (h.body, h.orelse)]
            if brk[0] and (h.orelse or s.body[1:]):
                t, body = ast.UnaryOp(ast.Not(), h.test), h.orelse + s.body[1:]
            elif brk[1]:
                t, body = h.test, h.body + s.body[1:]
            else:
                break
            s = ast.copy_location(ast.While(ast.copy_location(t, h.test), body, []), s)
        f = counting(s)
        if f is not None and f.iter.args[0].id in st.vars:
            return self.s_For(f, st, ctx)
        c0 = self.cond(s.test, st, ctx)
        if c0 is FALSE:
            return FALL, {"fall": st}
        if c0 is TRUE and not isinstance(s.test, ast.Constant) and not s.orelse:
            r = self.counted(s, st, ctx)
            if r is not None:
                return r
        return self.loop(s, st, ctx, None, None, c0)

    def counted(self, s, st, ctx, most=16):
        """a while loop whose test is decided before every turn, written out in full; None otherwise"""
        pend, nnotes, unb = list(self.pending), len(self.notes), set(self.unbound)

        class Open(Exception):
            pass

        def go(k, st):
            c = self.cond(s.test, st, ctx)
            if c is FALSE:
                return FALL, {"fall": st}
            if c is not TRUE or k >= most:
                raise Open
            t, ss = self.block(s.body, st, ctx)
            ccont = tree_cond(t, lambda kd, p: kd == "cont")
            nxt = self.merge(ccont, ss.get("cont"), ss.get("fall"))
            t2, s2 = (FALL, {}) if nxt is None else go(k + 1, nxt)
            tree = tree_subst_fall(t, t2, ("fall", "cont"))
            states = {}
            if "ret" in ss or "ret" in s2:
                states["ret"] = self.merge(tree_cond(t, lambda kd, p: kd == "ret"), ss.get("ret"), s2.get("ret"))
            cb = tree_cond(t, lambda kd, p: kd == "brk")
            tree = tree_subst_fall(tree, FALL, ("brk",))
            f = self.merge(cb, ss.get("brk"), s2.get("fall"))
            if f is not None:
                states["fall"] = f
            return tree, states

        try:
            return go(0, st.copy())
        except Open:
            self.pending, self.notes = pend, self.notes[:nnotes]
            self.unbound = unb
            return None

    def with_field(self, st, v, f, x):
        """the record v with field f replaced; the other fields stay shared"""
        if v.op == "ite":
            return ite(v.args[0], self.with_field(st, v.args[1], f, x), self.with_field(st, v.args[2], f, x))
        if v.op == "ref":
            return self.with_field(st, self.content(st, v), f, x)
        return store(v, field(f), x)

    def replaced_fields(self, v, sym):
        """fields f when v is sym with some fields replaced, else None"""
        out = []
        while v.op == "store" and v.args[1].op == "field":
            out.append(v.args[1].args[0])
            v = v.args[0]
        return sorted(set(out)) if v is sym and out else None

    def loop(self, s, st, ctx, cnt, bindk, entry):
        is_for = cnt is not None
        assigned = set()
        for x in s.body:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    assigned.add(n.id)
        if is_for:
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    assigned.add(n.id)
        for x in s.body:     # names rebound only inside comprehensions are local there
            pass
        modlocs = set()
        split = {}
        partly = set()
        k = fresh("k")
        base = st
        for _round in range(8):
            early = {v for v in assigned & (self.unbound | partly) if v not in base.vars and v not in ctx.globals_decl}
            if early:
                # read before it is written in some iteration: carried from the one before
                base = base.copy()
                for v in early:
                    base.vars[v] = UNDEF
            hs = base.copy()
            sym = {}
            for v in sorted(assigned):
                if v in split:
                    x = base.vars[v]
                    for f in split[v]:
                        sym[("f", v, f)] = fresh(v + "_" + f)
                        x = self.with_field(base, x, f, sym[("f", v, f)])
                    hs.vars[v] = x
                    continue
                if v in base.vars and v not in ctx.globals_decl:
                    sym[("v", v)] = fresh(v)
                    hs.vars[v] = sym[("v", v)]
            for l in modlocs:
                if isinstance(l, tuple) and l not in base.heap:
                    continue
                sym[("h", l)] = fresh("h")
                hs.heap[l] = sym[("h", l)]
            saved = self.pending
            self.pending = []
            nnotes = len(self.notes)
            if is_for:
                bindk(hs, k)
            tree, ss = self.block(s.body, hs, ctx)
            pend = self.pending
            for c, e in reversed(pend):
                tree = tree_ite(c, leaf("raise", e), tree)
            self.pending = saved
            if any(v not in base.vars and v not in ctx.globals_decl for v in assigned & self.unbound):
                self.notes = self.notes[:nnotes]
                continue
            # end-of-iteration state
            ccont = tree_cond(tree, lambda kd, p: kd == "cont")
            end = self.merge(ccont, ss.get("cont"), ss.get("fall"))
            cb = tree_cond(tree, lambda kd, p: kd == "brk")
            cr = tree_cond(tree, lambda kd, p: kd == "ret")
            allend = end
            if "brk" in ss:
                allend = self.merge(cb, ss["brk"], allend)
            if "ret" in ss:
                allend = self.merge(cr, ss["ret"], allend)
            if allend is None:
                allend = hs
            pt = {v for v in assigned - partly if v not in base.vars and v in allend.vars and v not in ctx.globals_decl
                  and maybe_unset(allend.vars[v]) and ctx.read_after(v, s)}
            if pt and _round < 6:
                # not assigned in every iteration: carried from an earlier one
                partly |= pt
                self.notes = self.notes[:nnotes]
                continue
            allend = self.fold_elements(allend, base, k)
            new = set()
            for v in sorted(assigned):
                if v not in split and ("v", v) in sym and v in allend.vars:
                    av = allend.vars[v]
                    if av.op == "ref" and isinstance(av.args[0], int):
                        av = self.content(allend, av)
                    fs = self.replaced_fields(av, sym[("v", v)])
                    if fs:
                        split[v] = fs
                        new = None
            if new is None:
                self.notes = self.notes[:nnotes]
                modlocs = set()
                continue
            for l, v in allend.heap.items():
                if l in base.heap or isinstance(l, T) or isinstance(l, tuple) and l[1] in base.heap:
                    before = base.heap.get(l, l if isinstance(l, T) else None)
                    if v is not before and l not in modlocs:
                        new.add(l)
            if not new:
                break
            modlocs |= new
            self.notes = self.notes[:nnotes]
        # continue condition for while
        stop = FALSE
        if is_for:
            stop = OR(cb, cr)
        else:
            if end is not None:
                saved = self.pending
                self.pending = []
                cc = self.cond(s.test, end.copy(), ctx)
                self.pending = saved
            else:
                cc = FALSE
            stop = OR(cb, cr, NOT(cc))
        # updates
        keys = {}
        for v in sorted(assigned):
            if v in ctx.globals_decl:
                continue
            fin = allend.vars.get(v)
            if fin is None:
                continue
            if v in split:
                for f in split[v]:
                    keys[("f", v, f)] = (sym[("f", v, f)], self.dr(base, self.attr_get(base, base.vars[v], f)),
                                         self.dr(allend, self.attr_get(allend, fin, f)))
                continue
            init = base.vars.get(v)
            keys[("v", v)] = (sym.get(("v", v)), UNDEF if init is None else self.dr(base, init), self.dr(allend, fin))
        for l in modlocs:
            b0 = base.heap.get(l, l if isinstance(l, T) else UNDEF)
            keys[("h", l)] = (sym.get(("h", l)), self.dr(base, b0), self.dr(allend, allend.heap[l]))
        flags = {}
        excs = set()
        self._tree_excs(tree, excs)
        fl = fresh("flag")
        for e in sorted(excs):
            ce = tree_cond(tree, lambda kd, p, e=e: kd == "raise" and p == e)
            flags[("exc", e)] = ce
        if "ret" in ss:
            flags[("ret", "")] = cr
        res = {}
        env = dict(keys)
        for fk, ce in flags.items():
            fs = fresh("flag")
            env[fk] = (fs, FALSE, OR(fs, self.dr(allend, ce)))
        if "ret" in ss:
            rv = self.dr(ss["ret"], ss["ret"].vars["__ret__"])
            rs = fresh("rv")
            env[("retval", "")] = (rs, UNDEF, ite(cr, rv, rs))
        stop = self.dr(allend, stop) if stop is not FALSE else FALSE
        bysym = {}
        for kk, (sy, init, upd) in env.items():
            if sy is not None:
                bysym[sy] = kk
        self.latches(env, bysym, k)
        if is_for and cnt.op == "len":
            # inside the loop the index is below len(x): (x + y)[i] is x[i]
            for kk, (sy, init, upd) in env.items():
                env[kk] = (sy, init, in_range(upd, k, cnt.args[0]))
            stop = in_range(stop, k, cnt.args[0])
        for kk in env:
            res[kk] = self.loop_out(kk, env, bysym, k, cnt, stop, entry, is_for)
        # after the loop
        after = base.copy()
        for kk, t in res.items():
            if kk[0] == "v":
                after.vars[kk[1]] = self.own(after, t, None)
            elif kk[0] == "h":
                after.heap[kk[1]] = self.own(after, t, None) if isinstance(kk[1], tuple) else t
            elif kk[0] == "f":
                after.vars[kk[1]] = self.with_field(after, after.vars[kk[1]], kk[2], t)
        tree = FALL
        states = {"fall": after}
        if s.orelse:
            # executed when the loop was not left by break
            if "brk" in ss or "ret" in ss:
                t2, s2 = self.block(s.orelse, after.copy(), ctx)
                self.note("loop else with break approximated", s, ctx)
            else:
                t2, s2 = self.block(s.orelse, after, ctx)
                return t2, s2
        for e in sorted(excs):
            tree = tree_ite(res[("exc", e)], leaf("raise", e), tree)
        if "ret" in ss:
            rs = after.copy()
            rs.vars["__ret__"] = res[("retval", "")]
            states["ret"] = rs
            tree = tree_ite(res[("ret", "")], leaf("ret"), tree)
        return tree, states

    def fold_elements(self, st, base, k):
        """writes to an element chosen by the iteration are writes to the
        container it was taken from"""
        locs = [l for l in st.heap if isinstance(l, T) and l not in base.heap and l.op == "select" and k in tm.free_lv(l)]
        if not locs:
            return st
        st = st.copy()
        while locs:
            l = max(locs, key=tm.size)
            locs.remove(l)
            c = st.heap.pop(l)
            if c is l:
                continue
            root, path = l.args
            if root.op not in LEAFY:
                continue
            st.heap[root] = npstore(self.content(st, raw("ref", root)), path, c)
            if k in tm.free_lv(root) and root.op == "select" and root not in locs:
                locs.append(root)
        return st

    def latches(self, env, bysym, k):
        """a value the loop only changes when an invariant condition holds still
        has its initial value where that condition fails"""
        inv = set(bysym) | {k}
        for sy, init, upd in list(env.values()):
            if sy is None or upd.op != "ite" or init is UNDEF:
                continue
            c, a, b = upd.args
            if (a is sy) == (b is sy) or tm.free_lv(c) & inv:
                continue
            for kk, (s2, i2, u2) in list(env.items()):
                env[kk] = (s2, i2, under(u2, c, a is sy, sy, init))

    def loop_out(self, kk, env, bysym, k, cnt, stop, entry, is_for):
        sy, init, upd = env[kk]
        # slice: carried values this output depends on
        order = [kk]
        seen = {kk}
        deps_stop = tm.free_lv(stop) if stop is not FALSE else frozenset()
        q = 0

        def deps(terms):
            out = []
            for t in terms:
                for v in ordered_lv(t):
                    o = bysym.get(v)
                    if o is not None and o not in seen:
                        seen.add(o)
                        out.append(o)
            return out

        while q < len(order):
            order.extend(deps([env[order[q]][2]]))
            q += 1
            if q == len(order) and stop is not FALSE:
                order.extend(deps([stop]))
        if sy is not None and upd is sy:
            return init
        if sy is None or sy not in tm.free_lv(upd):
            # not carried: value of the last iteration
            pass
        if is_for and stop is FALSE and len(order) == 1 and sy is not None:
            r = self.closed_form(sy, init, upd, k, cnt)
            if r is not None:
                return r
        if is_for and stop is FALSE and (sy is None or sy not in tm.free_lv(upd)) and len(order) == 1:
            # last value
            val = tm.subst(upd, {k: sub(cnt, ONE)})
            if init is UNDEF:
                return val
            return ite(lt(ZERO, cnt), val, init)
        syms = []
        inits = []
        upds = []
        for o in order:
            s_, i_, u_ = env[o]
            if s_ is None:
                s_ = fresh("u")
            syms.append(s_)
            inits.append(i_)
            upds.append(u_)
        body, h = tm.abstract(upds + [stop], [k] + syms)
        if is_for:
            return raw("fix", cnt, raw("tuple", *inits), raw("lam", *body), const(h))
        return ite(entry, raw("wfix", raw("tuple", *inits), raw("lam", *body), const(h)), init)

    def closed_form(self, sy, init, upd, k, cnt):
        fl = tm.free_lv
        g = gated(upd, sy, lambda t: t.args[1] if t.op == "append" and t.args[0] is sy else None)
        if g is not None and g[1] is not None and not any(sy in fl(x) for x in g):
            body, h = tm.abstract([g[1], g[0]], [k])
            c = raw("listcomp", cnt, body[0], body[1], const(h))
            return c if init.op == "list" and not init.args else raw("concat", init, c)
        if init.op == "dict" and not init.args:
            g = gated(upd, sy, lambda t: raw("tuple", t.args[1], t.args[2]) if t.op == "store" and t.args[0] is sy else None)
            if g is not None and g[1] is not None and not any(sy in fl(x) for x in g):
                body, h = tm.abstract([g[1], g[0]], [k])
                return raw("dictcomp", raw("listcomp", cnt, body[0], body[1], const(h)))
        if upd.op == "concat" and upd.args[0] is sy and (is_str(init) or is_str(upd)) \
                and all(sy not in fl(a) for a in upd.args[1:]):
            b = upd.args[1] if len(upd.args) == 2 else raw("concat", *upd.args[1:])
            body, h = tm.abstract([b, TRUE], [k])
            return concat(init, raw("strjoin", const(""), raw("listcomp", cnt, body[0], body[1], const(h))))
        if upd.op == "add" and sy in upd.args and not is_seq(init):
            rest = [a for a in upd.args if a is not sy]
            if all(sy not in fl(a) for a in rest) and len(rest) == len(upd.args) - 1:
                r = add(*rest)
                if k not in fl(r):
                    return add(init, mul(cnt, r))
                body, h = tm.abstract([r, TRUE], [k])
                return add(init, raw("bigsum", cnt, body[0], body[1], const(h)))
        return None

    # ------------------------------------------------------------ expressions
    def cond(self, node, st, ctx):
        if isinstance(node, ast.BoolOp):
            vs = []
            acc = None
            for v in node.values:
                vs.append(self.cond(v, st, ctx))
            return AND(*vs) if isinstance(node.op, ast.And) else OR(*vs)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return NOT(tm.truth(self.cond(node.operand, st, ctx)))
        return tm.truth(self.dr(st, self.ev(node, st, ctx)))

    def pure(self, node, st, ctx):
        return self.dr(st, self.ev(node, st, ctx))

    def ev(self, node, st, ctx):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            self.note("unsupported expression %s" % type(node).__name__, node, ctx)
            return raw("unsupported", ast.dump(node))
        return m(node, st, ctx)

    def e_Constant(self, n, st, ctx):
        return const(n.value)

    def e_Name(self, n, st, ctx):
        return self.name(n.id, st, ctx, n)

    def name(self, nm, st, ctx, node=None):
        if nm in ctx.globals_decl:
            g = raw("var", "<global %s.%s>" % (ctx.mod.name, nm))
            if g in st.heap:
                return st.heap[g]
            return g
        if nm in st.vars:
            return st.vars[nm]
        c = ctx.closure
        while c is not None:
            if nm in c[0]:
                return c[0][nm]
            c = c[1]
        if nm in ctx.local_imports:
            return self.resolved(self.prog.resolve(ctx.local_imports[nm]), ctx)
        if nm in ctx.stored():
            # a local of this function that has no value yet on this path
            self.unbound.add(nm)
            return UNDEF
        return self.global_name(nm, ctx)

    def global_name(self, nm, ctx):
        m = ctx.mod
        if nm in m.funcs or nm in m.classes or nm in m.assigns or nm in m.imports:
            return self.resolved(self.prog.member(m, [nm]), ctx)
        for k in m.imports:
            if k.startswith("*"):
                r = self.prog.member(m, [nm])
                if r[0] != "ext":
                    return self.resolved(r, ctx)
        if nm in ("True", "False", "None"):
            return const({"True": True, "False": False, "None": None}[nm])
        return raw("ext", nm)

    def resolved(self, r, ctx):
        if r[0] == "func":
            return raw("fn", r[1].name)
        if r[0] == "cls":
            return raw("clsref", r[1].name)
        if r[0] == "mod":
            return raw("modref", r[1].name)
        if r[0] == "glob":
            return self.global_value(r[1], r[2])
        d = npm.canon_name(r[1])
        if d in npm.SYMS:
            return npm.SYMS[d]
        return raw("ext", d)

    def global_value(self, m, nm):
        key = (m.name, nm)
        if key in self.glob_cache:
            return self.glob_cache[key]
        opaque = raw("var", "<global %s.%s>" % (m.name, nm))
        self.glob_cache[key] = opaque
        if "%s:%s" % key in self.opaque:
            return opaque
        defs = m.assigns[nm]
        r = opaque
        if len(defs) == 1 and defs[0][0] is not None:
            tgt, val, stn = defs[0]
            ctx = Ctx(self, None, m, 0)
            st = St()
            try:
                if isinstance(tgt, ast.Name):
                    if isinstance(val, ast.Call) and (dotted_name(val.func) or "").split(".")[-1] == "namedtuple":
                        r = self.namedtuple_def(val, st, ctx)
                    elif isinstance(val, ast.Call) and (dotted_name(val.func) or "").endswith("getLogger"):
                        r = raw("ext", "logger")
                    else:
                        sv = self.pending
                        self.pending = []
                        v = self.dr(st, self.ev(val, st, ctx))
                        self.pending = sv
                        if tm.size(v) <= 40000:
                            r = v
                elif isinstance(tgt, (ast.Tuple, ast.List)):
                    sv = self.pending
                    self.pending = []
                    v = self.dr(st, self.ev(val, st, ctx))
                    self.pending = sv
                    for k, e in enumerate(tgt.elts):
                        if isinstance(e, ast.Name) and e.id == nm:
                            r = select(v, const(k))
                if nm in m.muts and r is not opaque:
                    st.vars[nm] = self.newloc(st, r)
                    self.glob_cache[key] = r
                    sv = self.pending
                    self.pending = []
                    for x in m.muts[nm]:
                        self.stmt(x, st, ctx)
                    self.pending = sv
                    r = self.dr(st, st.vars[nm])
            except Unsupported:
                r = opaque
        self.glob_cache[key] = r
        return r

    def namedtuple_def(self, val, st, ctx):
        fields = None
        if len(val.args) >= 2:
            f = val.args[1]
            if isinstance(f, (ast.List, ast.Tuple)):
                fields = [e.value for e in f.elts if isinstance(e, ast.Constant)]
            elif isinstance(f, ast.Constant) and isinstance(f.value, str):
                fields = f.value.replace(",", " ").split()
        if fields is None:
            return raw("sym", "namedtuple")
        return raw("nttype", *fields)

    def e_Tuple(self, n, st, ctx):
        return raw("tuple", *self.elts(n, st, ctx))

    def e_List(self, n, st, ctx):
        return raw("list", *self.elts(n, st, ctx))

    def e_Set(self, n, st, ctx):
        return raw("set", *sorted([self.dr(st, x) for x in self.elts(n, st, ctx)], key=tm.skey))

    def elts(self, n, st, ctx):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.pure(e.value, st, ctx)
                if v.op in ("list", "tuple"):
                    out.extend(v.args)
                else:
                    out.append(raw("star", v))
                continue
            v = self.ev(e, st, ctx)
            if v.op == "view":
                v = v.args[1]
            if v.op in FRESH and v.op.startswith("np."):
                v = self.newloc(st, v)
            out.append(v)
        return out

    def e_Dict(self, n, st, ctx):
        out = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.pure(v, st, ctx)
                if x.op == "dict":
                    out.extend(x.args)
                else:
                    out.append(raw("kv", raw("sym", "**"), x))
                continue
            kk = self.pure(k, st, ctx)
            vv = self.ev(v, st, ctx)
            if vv.op == "view":
                vv = vv.args[1]
            if vv.op in FRESH:
                vv = self.newloc(st, vv)
            out.append(raw("kv", kk, vv))
        return raw("dict", *out)

    def e_JoinedStr(self, n, st, ctx):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(raw("fmtval", self.pure(v.value, st, ctx),
                                 const(ast.dump(v.format_spec) if v.format_spec else "")))
        return raw("fstr", *parts)

    def e_NamedExpr(self, n, st, ctx):
        v = self.own(st, self.ev(n.value, st, ctx), n.value)
        st.vars[n.target.id] = v
        return v

    def e_Starred(self, n, st, ctx):
        return raw("star", self.pure(n.value, st, ctx))

    def e_BinOp(self, n, st, ctx):
        a = self.pure(n.left, st, ctx)
        b = self.pure(n.right, st, ctx)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        if op == "Add":
            if is_str(a) or is_str(b):
                return concat(a, b)
            if is_seq(a) and a.op != "repeat" or is_seq(b) and b.op != "repeat":
                return concat(a, b)
            return add(a, b)
        if op == "Sub":
            if a.op == "set" or b.op == "set":
                return raw("setdiff", a, b)
            return sub(a, b)
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if x.op in ("list", "tuple") or is_str(x):
                    n = int_of(y)
                    if n is not None and x.op in ("list", "tuple") and 0 <= n * len(x.args) <= 64:
                        return raw(x.op, *(x.args * n))
                    return raw("repeat", x, y)
            return mul(a, b)
        if op == "Div":
            return div(a, b)
        if op == "FloorDiv":
            return floordiv(a, b)
        if op == "Mod":
            return mod(a, b)
        if op == "Pow":
            return power(a, b)
        if op == "MatMult":
            return npm.call("np.dot", [a, b], {})
        if op == "BitAnd":
            return npm.band(a, b)
        if op == "BitOr":
            return npm.bor(a, b)
        return raw("bin" + op, a, b)

    def e_UnaryOp(self, n, st, ctx):
        v = self.pure(n.operand, st, ctx)
        k = type(n.op).__name__
        if k == "USub":
            return neg(v)
        if k == "UAdd":
            return v
        if k == "Not":
            return NOT(tm.truth(v))
        return NOT(v) if is_bool(v) else raw("np.invert", v)

    def e_BoolOp(self, n, st, ctx):
        vals = [self.ev(v, st, ctx) for v in n.values]
        pv = [self.dr(st, v) for v in vals]
        if all(is_bool(p) for p in pv):
            return AND(*pv) if isinstance(n.op, ast.And) else OR(*pv)
        r = vals[-1]
        for v, p in zip(reversed(vals[:-1]), reversed(pv[:-1])):
            if isinstance(n.op, ast.And):
                r = ite(p, r, v)
            else:
                r = ite(p, v, r)
        return r

    def e_Compare(self, n, st, ctx):
        left = self.ev(n.left, st, ctx)
        if left.op == "ref" and len(n.ops) == 1:
            k = self.obj_class(self.content(st, left))
            m = self.prog.method(k, {"Eq": "__eq__", "Lt": "__lt__", "Gt": "__gt__", "LtE": "__le__", "GtE": "__ge__",
                                     "NotEq": "__ne__"}.get(type(n.ops[0]).__name__, "")) if k is not None else None
            if m is not None and self.stack.count(m.name) == 0:
                return self.inline(m, [left, self.ev(n.comparators[0], st, ctx)], {}, None, st, ctx, n)
        left = self.dr(st, left)
        out = []
        for op, c in zip(n.ops, n.comparators):
            right = self.pure(c, st, ctx)
            out.append(self.compare(type(op).__name__, left, right))
            left = right
        return AND(*out) if len(out) > 1 else out[0]

    def compare(self, k, a, b):
        if k == "Lt":
            return lt(a, b)
        if k == "LtE":
            return le(a, b)
        if k == "Gt":
            return lt(b, a)
        if k == "GtE":
            return le(b, a)
        if k == "Eq":
            return eq(a, b)
        if k == "NotEq":
            return NOT(eq(a, b))
        if k in ("Is", "IsNot"):
            if b is NONE:
                r = is_none(a)
            elif a is NONE:
                r = is_none(b)
            elif is_const(a) and is_const(b):
                r = const(a is b)
            else:
                r = eq(a, b)
            return r if k == "Is" else NOT(r)
        if k in ("In", "NotIn"):
            if b.op in ("list", "tuple", "set"):
                r = OR(*[eq(a, x) for x in b.args])
            elif b.op == "dict" and all(is_const(x.args[0]) for x in b.args):
                r = OR(*[eq(a, x.args[0]) for x in b.args])
            elif b.op == "keys":
                r = raw("in", a, b.args[0])
            else:
                r = raw("in", a, b)
            return r if k == "In" else NOT(r)
        return raw("cmp" + k, a, b)

    def e_IfExp(self, n, st, ctx):
        c = self.cond(n.test, st, ctx)
        if c is TRUE:
            return self.ev(n.body, st, ctx)
        if c is FALSE:
            return self.ev(n.orelse, st, ctx)
        s1, s2 = st.copy(), st.copy()
        a = self.ev(n.body, s1, ctx)
        b = self.ev(n.orelse, s2, ctx)
        m = self.merge(c, s1, s2)
        st.vars, st.heap = m.vars, m.heap
        if a.op == "view":
            a = a.args[1]
        if b.op == "view":
            b = b.args[1]
        return ite(c, a, b)

    def e_Lambda(self, n, st, ctx):
        return self.mk_closure(n, st, ctx, "<lambda>")

    def mk_closure(self, node, st, ctx, name):
        cid = len(self.closures)
        self.closures[cid] = (node, (st.vars, ctx.closure), ctx)
        return raw("closure", cid)

    def closure_term(self, st, t):
        node, clo, ctx = self.closures[t.args[0]]
        if len(self.stack) > self.max_depth or ("closure", t.args[0]) in self.stack:
            return raw("sym", "closure")
        self.stack.append(("closure", t.args[0]))
        a = node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        lvs = [fresh(p) for p in ps]
        s2 = St(dict(zip(ps, lvs)), dict(st.heap))
        c2 = Ctx(self, ctx.func, ctx.mod, ctx.depth + 1, clo)
        c2.local_imports = dict(ctx.local_imports)
        saved = self.pending
        self.pending = []
        try:
            if isinstance(node, ast.Lambda):
                v = self.dr(s2, self.ev(node.body, s2, c2))
            else:
                tree, ss = self.close(*self.block(node.body, s2, c2))
                v = self.dr(ss["ret"], ss["ret"].vars["__ret__"]) if "ret" in ss else raw("sym", "noreturn")
        finally:
            self.pending = saved
            self.stack.pop()
        body, h = tm.abstract([v], lvs)
        b0 = body[0]
        if "." in b0.op and len(b0.args) == len(ps) and all(x is raw("bv", h, k) for k, x in enumerate(b0.args)):
            return raw("ext", b0.op)
        return raw("lam", b0, const(h), const(len(ps)))

    # comprehension
    def e_ListComp(self, n, st, ctx):
        return self.comp(n.generators, n.elt, st, ctx)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st, ctx):
        return raw("toset", self.dr(st, self.comp(n.generators, n.elt, st, ctx)))

    def e_DictComp(self, n, st, ctx):
        t = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        ast.copy_location(t, n)
        r = self.comp(n.generators, t, st, ctx)
        if r.op == "list":
            return raw("dict", *[raw("kv", a.args[0], a.args[1]) for a in r.args])
        return raw("dictcomp", self.dr(st, r))

    def comp(self, gens, elt, st, ctx):
        g = gens[0]
        it = self.iter_value(g.iter, st, ctx)
        items = self.literal_items(it, 120)
        s2 = st.copy()
        if items is not None:
            out = []
            conds = []
            for x in items:
                s3 = St(dict(st.vars), st.heap)
                self.assign(g.target, x, s3, ctx)
                c = AND(*[self.cond(i, s3, ctx) for i in g.ifs]) if g.ifs else TRUE
                if len(gens) > 1:
                    v = self.comp(gens[1:], elt, s3, ctx)
                    if v.op == "list" and c is TRUE:
                        out.extend((TRUE, a) for a in v.args)
                    else:
                        out.append((c, raw("star", self.dr(s3, v))))
                else:
                    if c is FALSE:
                        continue
                    v = self.ev(elt, s3, ctx)
                    if v.op == "view":
                        v = v.args[1]
                    if v.op in ("list", "dict"):
                        v = self.newloc(st, v)
                    out.append((c, v))
            if all(c is TRUE for c, _ in out):
                return raw("list", *[v for _, v in out])
            return raw("condlist", *[raw("tuple", c, self.dr(st, v)) for c, v in out])
        it = self.dr(st, it)
        cnt, elem = self.iter_info(it)
        k = fresh("k")
        s3 = St(dict(st.vars), dict(st.heap))
        self.assign(g.target, elem(k), s3, ctx)
        saved = self.pending
        self.pending = []
        c = AND(*[self.cond(i, s3, ctx) for i in g.ifs]) if g.ifs else TRUE
        if len(gens) > 1:
            v = self.dr(s3, self.comp(gens[1:], elt, s3, ctx))
            body, h = tm.abstract([v, c], [k])
            self.pending = saved
            return raw("flatcomp", cnt, body[0], body[1], const(h))
        v = self.dr(s3, self.ev(elt, s3, ctx))
        pend = self.pending
        self.pending = saved
        for pc, e in pend:
            acc = fresh("u")
            b2, h2 = tm.abstract([OR(acc, AND(c, self.dr(s3, pc))), FALSE], [k, acc])
            self.pending.append((raw("fix", cnt, raw("tuple", FALSE), raw("lam", *b2), const(h2)), e))
        body, h = tm.abstract([v, c], [k])
        return raw("listcomp", cnt, body[0], body[1], const(h))

    def e_Yield(self, n, st, ctx):
        v = NONE if n.value is None else self.pure(n.value, st, ctx)
        if ctx.ykey is not None:
            st.heap[ctx.ykey] = append(st.heap[ctx.ykey], v)
        return raw("sym", "sent")

    def e_YieldFrom(self, n, st, ctx):
        v = self.pure(n.value, st, ctx)
        if ctx.ykey is not None:
            st.heap[ctx.ykey] = concat(st.heap[ctx.ykey], v)
        return NONE

    def e_Attribute(self, n, st, ctx):
        if isinstance(n.value, ast.Call) and dotted_name(n.value.func) == "super" and ctx.func is not None and ctx.func.cls is not None:
            for x in ctx.func.cls.node.bases:
                d = dotted_name(x)
                r = self.prog.member(ctx.func.cls.mod, d.split(".")) if d else (None,)
                if r[0] == "cls":
                    g = self.prog.method(r[1], n.attr, kind="getters")
                    if g is not None:
                        return self.inline(g, [st.vars.get("self", var("self"))], {}, None, st, ctx, n)
        b = self.ev(n.value, st, ctx)
        return self.attr_get(st, b, n.attr, ctx)

    def materialise(self, st, b):
        """an object known by value becomes a local object"""
        if b.op == "view":
            b = b.args[1]
        if b.op == "ref" and isinstance(b.args[0], int) and self.content(st, b).op == "obj" and len(self.content(st, b).args) > 1:
            b = self.content(st, b)
        if b.op != "obj" or any(not isinstance(x, T) or x.op != "kv" or x.args[0].op != "field" for x in b.args[1:]):
            return b
        r = self.newloc(st, raw("obj", b.args[0]))
        for x in b.args[1:]:
            st.heap[("slot", r.args[0], x.args[0].args[0])] = self.own(st, x.args[1], None)
        return r

    def attr_get(self, st, b, name, ctx=None):
        if b.op in ("obj", "view"):
            b = self.materialise(st, b)
        if b.op == "ext":
            d = npm.canon_name(b.args[0] + "." + name)
            if d in npm.SYMS:
                return npm.SYMS[d]
            return raw("ext", d)
        if b.op in ("np.finfo", "np.iinfo") and b.args and b.args[0].op == "dtype" and (b.args[0].args[0], name) in LIMITS:
            return const(LIMITS[b.args[0].args[0], name])
        if b.op == "nttype" and name == "_fields":
            return raw("tuple", *[const(x) for x in b.args])
        if b.op == "modref":
            return self.resolved(self.prog.member(self.prog.modules[b.args[0]], [name]), ctx)
        if b.op == "fn" and ":" in b.args[0]:
            mn, q = b.args[0].split(":")
            m = self.prog.modules.get(mn)
            if m is not None and (q, name) in m.fattrs:
                s2 = St()
                return self.dr(s2, self.ev(m.fattrs[(q, name)], s2, Ctx(self, None, m, 0)))
        if b.op == "clsref":
            c = self.cls(b.args[0])
            f = self.prog.method(c, name)
            if f is not None:
                return raw("fn", f.name)
            a = self.cls_attr(c, name)
            if a is not None:
                return a
            return raw("ext", b.args[0] + "." + name)
        if b.op == "ref" and ("slot", b.args[0], name) in st.heap:
            return st.heap[("slot", b.args[0], name)]
        if name in PURE_ATTRS:
            v = self.dr(st, b)
            if name == "shape":
                return npm.attr_shape(v)
            if name == "T" and v.op == "select" and v.args[1].op == "field" and v.args[1].args[0] == "T":
                return v.args[0]
            return attr(v, name)
        if b.op == "view":
            return attr(b.args[1], name)
        if b.op == "ref":
            c = self.content(st, b)
            if ("slot", b.args[0], name) in st.heap:
                return st.heap[("slot", b.args[0], name)]
            k = self.obj_class(c)
            if k is not None:
                g = self.prog.method(k, name, kind="getters")
                if g is not None:
                    return self.inline(g, [b], {}, None, st, ctx or Ctx(self, None, k.mod, 0), None)
            r = select(c, field(name))
            if r.op in ("ref", "const", "closure", "tuple", "fn"):
                return r
            if r.op == "select" and r.args[1] is field(name):
                base = r.args[0]
                k = self.obj_class(c)
                if k is not None:
                    a = self.cls_attr(k, name)
                    if a is not None:
                        return a
                if root_is_plain(base):
                    return raw("ref", r)
            return r
        if b.op == "ite":
            return ite(b.args[0], self.attr_get(st, b.args[1], name, ctx), self.attr_get(st, b.args[2], name, ctx))
        r = select(b, field(name))
        if r.op == "select" and root_is_plain(r):
            return raw("ref", r)
        return r

    def cls(self, qual):
        m, n = qual.split(":")
        return self.prog.modules[m].classes[n]

    def cls_attr(self, c, name, seen=()):
        if name in c.attrs:
            ctx = Ctx(self, None, c.mod, 0)
            st = St()
            v = self.ev(c.attrs[name], st, ctx)
            return self.dr(st, v)
        for b in c.node.bases:
            d = dotted_name(b)
            if d:
                r = self.prog.member(c.mod, d.split("."))
                if r[0] == "cls" and r[1].name not in seen:
                    a = self.cls_attr(r[1], name, seen + (c.name,))
                    if a is not None:
                        return a
        return None

    def obj_class(self, c):
        if c.op == "obj":
            return self.cls(c.args[0])
        if c.op == "store" and c.args[1].op == "field":
            return self.obj_class(c.args[0])
        if c.op == "var" and c.args[0] == "self" and self.self_cls is not None:
            return self.self_cls
        return None

    self_cls = None

    def e_Subscript(self, n, st, ctx):
        b = self.ev(n.value, st, ctx)
        i = self.index(n.slice, st, ctx)
        if b.op == "ref":
            k = self.obj_class(self.content(st, b))
            m = self.prog.method(k, "__getitem__") if k is not None else None
            if m is not None and self.stack.count(m.name) < (4 if is_const(i) else 1):
                return self.inline(m, [b, i], {}, None, st, ctx, n)
        return self.sub_get(st, b, i)

    def e_Slice(self, n, st, ctx):
        return raw("slice", *[NONE if x is None else self.pure(x, st, ctx) for x in (n.lower, n.upper, n.step)])

    def index(self, node, st, ctx):
        if isinstance(node, ast.Tuple):
            return raw("tuple", *[self.index(e, st, ctx) for e in node.elts])
        if isinstance(node, ast.Slice):
            r = self.e_Slice(node, st, ctx)
            return norm_slice(r)
        v = self.pure(node, st, ctx)
        if v.op == "ext" and v.args[0] == "slice":
            return v
        if v.op == "slice":
            return norm_slice(v)
        if v.op == "int":
            return v
        return v

    def sub_get(self, st, b, i):
        i = self.dr(st, i)
        if b.op == "view":
            return raw("view", b.args[0], select(b.args[1], i),
                       raw("tuple", *(tm._idx_parts(b.args[2]) + tm._idx_parts(i)))) if all(
                           tm._scalar_index(x) for x in tm._idx_parts(b.args[2])) else select(b.args[1], i)
        if b.op == "ref":
            c = self.content(st, b)
            r = select(c, i)
            if r.op in ("ref", "const", "closure", "fn"):
                return r
            if i.op == "const" and i.args[0] == "str" and r.op == "select" and r.args[1] is i and root_is_plain(r):
                return raw("ref", r)
            if c.op in ("list", "tuple", "dict", "nt") and not (r.op == "select" and r.args[1] is i):
                return r
            rr = self.dr(st, r)
            if is_fancy(i):
                return rr
            return raw("view", b, rr, i)
        if b.op == "ite":
            return ite(b.args[0], self.sub_get(st, b.args[1], i), self.sub_get(st, b.args[2], i))
        if b.op == "ext":
            return raw("select", b, i)
        return select(b, i)

    def unview(self, v):
        return v.args[1] if v.op == "view" else v

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, st, ctx):
        f = n.func
        # super().__init__(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and dotted_name(f.value.func) == "super":
            return self.super_call(n, f, st, ctx)
        if isinstance(f, ast.Name) and f.id == "assume":
            self.assumes.append(self.cond(n.args[0], st, ctx))
            return NONE
        recv = None
        meth = None
        if isinstance(f, ast.Attribute):
            d = dotted_name(f)
            if d and (d.startswith("logger.") or d.split(".")[0] == "warnings"):
                return NONE
            recv = self.ev(f.value, st, ctx)
            meth = f.attr
            if recv.op == "ext" and (recv.args[0].startswith("logg") or recv.args[0].startswith("warnings")):
                return NONE
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, ctx)
                if v.op == "view":
                    v = v.args[1]
                c = self.content(st, v) if v.op == "ref" else v
                if c.op in ("list", "tuple", "nt"):
                    if c.op == "nt":
                        args.extend(x.args[1] for x in c.args if isinstance(x, T))
                    else:
                        args.extend(c.args)
                else:
                    args.append(raw("star", self.dr(st, v)))
            else:
                args.append(self.ev(a, st, ctx))
        kwargs = {}
        dstar = None
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value, st, ctx)
                c = self.content(st, v) if v.op == "ref" else v
                if c.op == "dict" and all(str_of(x.args[0]) is not None for x in c.args):
                    for x in c.args:
                        kwargs[str_of(x.args[0])] = x.args[1]
                else:
                    dstar = self.dr(st, v)
            else:
                kwargs[k.arg] = self.ev(k.value, st, ctx)
        if recv is not None:
            fn = self.method_target(st, recv, meth, ctx)
            if fn is None:
                return self.method_call(st, recv, meth, args, kwargs, dstar, n, ctx)
            if fn[0] == "bound":
                return self.inline(fn[1], [fn[2]] + args, kwargs, dstar, st, ctx, n)
            fv = fn[1]
        else:
            fv = self.ev(f, st, ctx)
        return self.apply(fv, args, kwargs, dstar, st, ctx, n)

    def super_call(self, n, f, st, ctx):
        c = ctx.func.cls if ctx.func is not None else None
        args = [self.ev(a, st, ctx) for a in n.args if not isinstance(a, ast.Starred)]
        star = [self.ev(a.value, st, ctx) for a in n.args if isinstance(a, ast.Starred)]
        kwargs = {k.arg: self.ev(k.value, st, ctx) for k in n.keywords if k.arg}
        dstar = None
        for k in n.keywords:
            if k.arg is None:
                dstar = self.pure(k.value, st, ctx)
        selfv = st.vars.get("self", var("self"))
        if f.attr != "__new__":
            lit = [self.content(st, v) if v.op == "ref" else v for v in star]
            if lit and all(x.op in ("list", "tuple") for x in lit) and isinstance(n.args[-1], ast.Starred) and len(lit) == 1:
                args += list(lit[0].args)
                star = []
            if dstar is not None and dstar.op == "dict" and all(str_of(x.args[0]) is not None for x in dstar.args):
                kwargs.update({str_of(x.args[0]): x.args[1] for x in dstar.args})
                dstar = None
        if c is not None and f.attr == "__new__" and self.nt_base(c) is not None and len(star) <= 1 and len(args) == 1:
            extra = []
            for v in star:
                cc = self.content(st, v) if v.op == "ref" else v
                extra += list(cc.args) if cc.op in ("list", "tuple") else [raw("star", self.dr(st, v))]
            kw = dict(kwargs)
            if dstar is not None and dstar.op == "dict" and all(str_of(x.args[0]) is not None for x in dstar.args):
                kw.update({str_of(x.args[0]): x.args[1] for x in dstar.args})
                dstar = None
            if dstar is None:
                return self.apply(self.nt_base(c), extra, kw, None, st, ctx, n)
        if c is not None:
            for b in c.node.bases:
                d = dotted_name(b)
                if not d:
                    continue
                r = self.prog.member(c.mod, d.split("."))
                if r[0] == "cls":
                    m = self.prog.method(r[1], f.attr)
                    if m is not None and not star:
                        return self.inline(m, [selfv] + args, kwargs, dstar, st, ctx, n)
        pargs = [self.dr(st, a) for a in args] + [raw("star", self.dr(st, x)) for x in star]
        pk = {k: self.dr(st, v) for k, v in kwargs.items()}
        t = npm.bind("super." + f.attr, pargs + ([raw("dstar", dstar)] if dstar is not None else []), pk)
        if f.attr == "__init__":
            plain = c is not None and all(dotted_name(b) == "object" for b in c.node.bases)
            if not plain:
                self.mutate(st, selfv, lambda cc: raw("after", cc, t))
            return NONE
        return t

    def method_target(self, st, recv, meth, ctx):
        if recv.op in ("obj", "view"):
            recv = self.materialise(st, recv)
        if recv.op in ("ext",):
            return ("val", self.attr_get(st, recv, meth, ctx))
        if recv.op == "clsref":
            f = self.prog.method(self.cls(recv.args[0]), meth)
            if f is not None and "classmethod" in {dotted_name(d) for d in f.node.decorator_list}:
                return ("bound", f, recv)
        if recv.op in ("modref", "clsref"):
            return ("val", self.attr_get(st, recv, meth, ctx))
        if recv.op == "ref":
            c = self.content(st, recv)
            k = self.obj_class(c)
            if k is not None:
                f = self.prog.method(k, meth)
                if f is not None and f.name in self.opaque:
                    return None
                if f is not None:
                    deco = {dotted_name(d) for d in f.node.decorator_list}
                    if "staticmethod" in deco:
                        return ("val", raw("fn", f.name))
                    if "classmethod" in deco:
                        return ("bound", f, raw("clsref", k.name))
                    return ("bound", f, recv)
                if self.prog.method(k, meth, kind="getters") is not None:
                    return ("val", self.attr_get(st, recv, meth, ctx))
            fv = st.heap.get(("slot", recv.args[0], meth))
            if fv is not None:
                return ("val", fv)
            fv = select(c, field(meth))
            if fv.op == "closure":
                return ("val", fv)
        return None

    def reads(self, f, cls, seen=None):
        """attributes of self a method may read (None: unknown)"""
        seen = set() if seen is None else seen
        if f in seen:
            return set()
        seen.add(f)
        if not f.params:
            return None
        me = f.params[0]
        out = set()
        inner = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                inner.add(x.value)
                g = self.prog.method(cls, x.attr) or self.prog.method(cls, x.attr, kind="getters")
                if g is not None:
                    r = self.reads(g, cls, seen)
                    if r is None:
                        return None
                    out |= r
                elif isinstance(x.ctx, ast.Load):
                    out.add(x.attr)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and x.id == me and x not in inner:
                return None
        return out

    def method_call(self, st, recv, meth, args, kwargs, dstar, n, ctx):
        pargs = [self.dr(st, a) for a in args]
        pkw = {k: self.dr(st, v) for k, v in kwargs.items()}
        c = self.content(st, recv) if recv.op == "ref" else (recv.args[1] if recv.op == "view" else recv)
        val = self.dr(st, recv)
        if recv.op == "ref" and self.obj_class(c) is not None:
            f = self.prog.method(self.obj_class(c), meth)
            r = self.reads(f, self.obj_class(c)) if f is not None and f.name in self.opaque else None
            if r is not None:
                # an opaque method sees only the attributes it reads
                val = raw("obj", self.obj_class(c).name, *[raw("kv", field(x), self.dr(st, select(c, field(x)))) for x in sorted(r)])
        if meth == "append" and len(args) == 1 and not kwargs:
            a = args[0]
            if a.op == "view":
                a = a.args[1]
            if a.op in ("list", "dict"):
                a = self.newloc(st, a)
            self.mutate(st, recv, lambda cc: append(cc, a))
            return NONE
        if meth == "extend" and len(args) == 1:
            a = args[0]
            ac = self.content(st, a) if a.op == "ref" else a
            self.mutate(st, recv, lambda cc: concat(cc, ac if ac.op == "list" else pargs[0]))
            return NONE
        if meth == "update" and not kwargs and len(args) == 1:
            self.mutate(st, recv, lambda cc: dict_update(cc, pargs[0]))
            return NONE
        if meth == "fill" and len(args) == 1:
            self.mutate(st, recv, lambda cc: npm.full_like(cc, pargs[0]))
            return NONE
        if meth == "sort" and not args and not kwargs:
            self.mutate(st, recv, lambda cc: raw("np.sort", cc))
            return NONE
        if meth == "sort" and not args and set(kwargs) <= {"key", "reverse"}:
            self.mutate(st, recv, lambda cc: self.ext_call("sorted", [cc], kwargs, None, st, ctx, n))
            return NONE
        if meth == "reverse" and not args:
            self.mutate(st, recv, lambda cc: select(cc, raw("slice", NONE, NONE, MINUS)))
            return NONE
        if meth in ("pop", "popitem", "setdefault", "popleft"):
            r = npm.bind("m." + meth, [val] + pargs, pkw)
            self.mutate(st, recv, lambda cc: raw("after", cc, npm.bind("m." + meth, pargs, pkw)))
            return r
        if meth in npm.MUTATORS:
            self.mutate(st, recv, lambda cc: raw("after", cc, npm.bind("m." + meth, pargs, pkw)))
            return NONE
        if meth in ("items", "keys", "values", "iteritems", "iterkeys", "itervalues") and not args:
            return self.dict_view(meth.replace("iter", ""), recv, st, ctx, n)
        if meth == "get" and val.op == "tuple" and len(val.args) == 1 and len(args) <= 1:
            return val.args[0]  # the multiprocessing stub's pending result
        if meth == "get" and val.op == "dict" and pargs and is_const(pargs[0]):
            for x in c.args if c.op == "dict" else ():
                if x.args[0] is pargs[0]:
                    return x.args[1]
            if all(is_const(x.args[0]) for x in val.args):
                return pargs[1] if len(pargs) > 1 else NONE
        if meth == "get":
            return raw("m.get", *([val] + pargs))
        if meth == "copy" and not args:
            return val
        if meth == "_replace":
            r = recv
            for k, v in kwargs.items():
                r = self.with_field(st, r, k, self.nt_val(st, v))
            return r
        if meth == "_asdict":
            return raw("asdict", val)
        if meth == "astype" and args:
            return npm.astype(val, pargs[0])
        if meth == "flatten" and not args:
            return npm.call("np.ravel", [val], {})
        if meth == "reshape":
            shp = pargs[0] if len(pargs) == 1 else raw("tuple", *pargs)
            return npm.call("np.reshape", [val, shp], pkw)
        if meth == "transpose" and not args:
            return attr(val, "T")
        if meth == "__strip_prefix__":
            # used by the library stubs only: a literal name never starts with a computed prefix
            a, b = (list(x.args) if x.op == "concat" else [x] for x in (val, pargs[0]))
            if str_of(val) is not None:
                pre = str_of(pargs[0])
                return val if pre is None or not str_of(val).startswith(pre) else const(str_of(val)[len(pre):])
            if len(a) >= len(b) and a[:len(b) - 1] == b[:-1]:
                if a[len(b) - 1] is b[-1]:
                    return raw("concat", *a[len(b):]) if len(a) > len(b) + 1 else a[-1] if len(a) > len(b) else const("")
                x, y = str_of(a[len(b) - 1]), str_of(b[-1])
                if x is not None and y is not None and x.startswith(y):
                    rest = [const(x[len(y):])] + a[len(b):]
                    return raw("concat", *rest) if len(rest) > 1 else rest[0]
        if meth == "format" or meth == "join" or is_str(val):
            if meth in ("format",):
                return raw("fmt", val, raw("tuple", *pargs), *[npm.kv(k, pkw[k]) for k in sorted(pkw)])
            if meth == "join" and len(pargs) == 1:
                items = self.literal_items(pargs[0])
                if items is not None and str_of(val) is not None and len(items) <= 12:
                    out = []
                    for x in items:
                        out += [val, x] if out and str_of(val) else [x]
                    r = const("")
                    for k, x in enumerate(out):
                        r = concat(r, x) if k else x
                    return r
                return raw("strjoin", val, pargs[0])
            if meth in FOLDED and str_of(val) is not None and not pkw and all(str_of(x) is not None for x in pargs):
                r = getattr(str_of(val), meth)(*[str_of(x) for x in pargs])
                return raw("list", *[const(x) for x in r]) if isinstance(r, list) else tm.TRUE if r is True else \
                    tm.FALSE if r is False else const(r)
            return npm.bind("s." + meth, [val] + pargs, pkw)
        if meth in npm.METHODS:
            return npm.call("np." + meth, [val] + pargs, pkw)
        ext = [raw("dstar", dstar)] if dstar is not None else []
        t = npm.bind("m." + meth, [val] + pargs + ext, pkw)
        if meth in npm.PURE_METHODS:
            return t
        if meth == "write" and len(pargs) == 1 and not pkw and val.op == "open":
            d = pargs[0]
            while d.op in ("s.encode", "m.encode"):
                d = d.args[0]
            self.mutate(st, raw("ref", FILES), lambda c: concat(c, d))
            return t
        if meth == "writelines" and len(pargs) == 1 and not pkw and val.op == "open":
            self.mutate(st, raw("ref", FILES), lambda c: concat(c, raw("strjoin", const(""), pargs[0])))
            return t
        if meth in ("write", "save", "dump"):
            self.mutate(st, raw("ref", FILES), lambda c: concat(c, t))
        if "pure:" + meth in self.opaque:
            return t
        # unknown method: result depends on, and may change, the receiver
        if recv.op in ("ref", "view", "ite"):
            self.mutate(st, recv, lambda cc: raw("after", cc, npm.bind("m." + meth, pargs + ext, pkw)))
        elif recv.op == "select":
            self.mutate(st, raw("ref", recv), lambda cc: raw("after", cc, npm.bind("m." + meth, pargs + ext, pkw)))
        return t

    def apply(self, fv, args, kwargs, dstar, st, ctx, n):
        if fv.op == "ite":
            c = fv.args[0]
            s1, s2 = st.copy(), st.copy()
            saved, self.pending = self.pending, []
            a = self.apply(fv.args[1], args, kwargs, dstar, s1, ctx, n)
            pa, self.pending = self.pending, []
            b = self.apply(fv.args[2], args, kwargs, dstar, s2, ctx, n)
            pb, self.pending = self.pending, saved
            if self.pending is not None:
                self.pending.extend([(AND(c, x), e) for x, e in pa] + [(AND(NOT(c), x), e) for x, e in pb])
            m = self.merge(c, s1, s2)
            st.vars, st.heap = m.vars, m.heap
            return ite(c, self.unview(a), self.unview(b))
        if fv.op == "fn":
            func = self.prog.func(fv.args[0])
            if func is not None and fv.args[0] not in self.opaque:
                return self.inline(func, args, kwargs, dstar, st, ctx, n)
        if fv.op == "closure":
            node, clo, c0 = self.closures[fv.args[0]]
            return self.inline_node(node, args, kwargs, dstar, st, c0, clo, ("closure", fv.args[0]), c0.func, n)
        if fv.op == "nttype":
            fields = fv.args
            vals = {}
            if len(args) == 1 and args[0].op == "star" and not kwargs:
                args = [select(args[0].args[0], const(k)) for k in range(len(fields))]
            for k, a in zip(fields, args):
                vals[k] = a
            vals.update(kwargs)
            return raw("nt", *[raw("kv", field(k), self.nt_val(st, vals.get(k, UNDEF))) for k in fields])
        if fv.op == "clsref" and fv.args[0] not in self.opaque:
            return self.instantiate(self.cls(fv.args[0]), args, kwargs, dstar, st, ctx, n)
        if fv.op == "ref":
            c = self.content(st, fv)
            if c.op in ("closure", "fn", "nttype", "clsref", "ext"):
                return self.apply(c, args, kwargs, dstar, st, ctx, n)
            k = self.obj_class(c)
            if k is not None:
                m = self.prog.method(k, "__call__")
                if m is not None:
                    return self.inline(m, [fv] + args, kwargs, dstar, st, ctx, n)
            fv = self.dr(st, fv)
        if fv.op == "view":
            fv = fv.args[1]
        if fv.op == "select" and fv.args[0].op == "dict" and 0 < len(fv.args[0].args) <= 24 and all(
                is_const(kv.args[0]) and kv.args[1].op in ("fn", "closure", "ext", "ref") for kv in fv.args[0].args):
            # dispatch table: one call per entry
            t = raw("sym", "nokey")
            for kv in reversed(fv.args[0].args):
                t = ite(eq(fv.args[1], kv.args[0]), kv.args[1], t)
            if t.op == "ite":
                return self.apply(t, args, kwargs, dstar, st, ctx, n)
        if fv.op == "ext":
            return self.ext_call(fv.args[0], args, kwargs, dstar, st, ctx, n)
        pargs = [self.dr(st, a) for a in args]
        pkw = {k: self.dr(st, v) for k, v in kwargs.items()}
        ext = [raw("dstar", dstar)] if dstar is not None else []
        return npm.bind("apply", [self.dr(st, fv)] + pargs + ext, pkw)

    def nt_val(self, st, v):
        if v.op == "view":
            return v.args[1]
        if v.op in FRESH:
            return self.newloc(st, v)
        return v

    def ext_call(self, name, args, kwargs, dstar, st, ctx, n):
        name = npm.canon_name(name)
        if name == "print" or name.startswith("sys.stdout"):
            return NONE
        if name in ("list", "tuple", "sorted", "iter", "set", "sum", "len") and args and args[0].op == "ref":
            k = self.obj_class(self.content(st, args[0]))
            if k is not None:
                m = self.prog.method(k, "__len__" if name == "len" else "__iter__")
                if m is not None and self.stack.count(m.name) == 0:
                    v = self.inline(m, [args[0]], {}, None, st, ctx, n)
                    if name == "len":
                        return v
                    args = [v] + args[1:]
        if name == "iter" and len(args) == 1:
            return args[0]
        if name == "setattr" and len(args) == 3 and str_of(args[1]) is not None and args[0].op == "ref":
            self.assign_attr(st, args[0], str_of(args[1]), args[2], ctx)
            return NONE
        if name == "getattr" and len(args) in (2, 3) and str_of(args[1]) is not None and not kwargs:
            r = self.attr_get(st, args[0], str_of(args[1]), ctx)
            if len(args) == 2 or r.op != "select":
                return r
        if name == "getattr" and len(args) == 2 and not kwargs and args[0].op == "ref" \
                and self.obj_class(self.content(st, args[0])) is not None:
            return raw("getattr", self.dr(st, args[0]), self.dr(st, args[1]))
        if name in ("np.seterr", "np.random.seed"):
            self.mutate(st, raw("ref", WORLD), lambda c: raw("after", c, raw("ext", name)))
        if name in ("list", "tuple", "zip", "enumerate", "reversed"):
            keep = []
            for a in args:
                if a.op == "ref":
                    c = self.content(st, a)
                    a = c if c.op in ("list", "tuple") else self.dr(st, a)
                if a.op == "dict" and name in ("list", "tuple") and all(is_const(x.args[0]) for x in a.args):
                    a = raw("list", *[x.args[0] for x in a.args])
                elif a.op == "view":
                    a = a.args[1]
                elif a.op not in ("list", "tuple"):
                    a = self.dr(st, a)
                keep.append(a)
            r = npm.call(name, keep, {k: self.dr(st, v) for k, v in kwargs.items()})
            if r.op not in ("list", "tuple"):
                r = self.dr(st, r)
            return r
        if name in ("collections.deque", "deque") and not args:
            return raw("list")
        if name in ("collections.OrderedDict", "collections.defaultdict", "OrderedDict") and not args and not kwargs:
            return raw("dict")
        if name in ("dict", "collections.OrderedDict", "OrderedDict") and len(args) <= 1 and dstar is None:
            r = self.dict_call(args, kwargs, st)
            if r is not None:
                return r
        if name in ("copy.copy", "copy.deepcopy") and len(args) == 1:
            return self.dr(st, args[0])
        if name in ("six.iteritems", "six.iterkeys", "six.itervalues") and len(args) == 1:
            v = args[0]
            c = self.content(st, v) if v.op == "ref" else v
            return self.dict_view(name[8:], v, st, ctx, n)
        if name == "six.text_type":
            name = "str"
        if name == "getattr" and len(args) >= 2:
            s = str_of(self.dr(st, args[1]))
            if s is not None and len(args) == 2:
                return self.attr_get(st, args[0], s, ctx)
        if name == "setattr" and len(args) == 3:
            s = str_of(self.dr(st, args[1]))
            if s is not None:
                self.write(st, args[0], field(s), args[2])
                return NONE
            self.mutate(st, args[0], lambda c: raw("setattr", c, self.dr(st, args[1]), self.dr(st, args[2])))
            return NONE
        if name == "tqdm.tqdm" and args:
            return args[0]
        if name in ("map",) and len(args) == 2:
            it = self.dr(st, args[1])
            items = self.literal_items(it)
            if items is not None:
                return raw("list", *[self.dr(st, self.apply(args[0], [x], {}, None, st, ctx, n)) for x in items])
            cnt, elem = self.iter_info(it)
            k = fresh("k")
            v = self.dr(st, self.apply(args[0], [elem(k)], {}, None, st.copy(), ctx, n))
            body, h = tm.abstract([v, TRUE], [k])
            return raw("listcomp", cnt, body[0], body[1], const(h))
        if name in INPLACE_FUNCS and args:
            tgt = args[INPLACE_FUNCS[name]]
            pargs = [self.dr(st, a) for a in args[1:]]
            if name == "np.fill_diagonal" or True:
                self.mutate(st, tgt, lambda c: raw("after", c, npm.bind(name, pargs, {
                    k: self.dr(st, v) for k, v in kwargs.items()})))
            return NONE
        out = kwargs.get("out")
        pargs = [self.dr(st, a) for a in args]
        pkw = {k: self.dr(st, v) for k, v in kwargs.items()}
        if dstar is not None:
            pargs = pargs + [raw("dstar", dstar)]
        if out is not None and out is not NONE:
            pk2 = {k: v for k, v in pkw.items() if k != "out"}
            r = npm.call(name, pargs, pk2)
            oc = self.dr(st, out)
            if oc.op == "var" or oc.op == "ite":
                # optional output: the result is also written there
                self.mutate(st, out, lambda c: raw("outwrite", c, r))
                return raw("outret", r, oc)
            self.mutate(st, out, lambda c: r)
            return out
        r = npm.call(name, pargs, pkw)
        if name == "open":
            m = pargs[1] if len(pargs) > 1 else pkw.get("mode", const("r"))
            if str_of(m) is None or set(str_of(m)) & set("wax+"):
                self.mutate(st, raw("ref", FILES), lambda c: concat(c, r))
        if name in FILE_FUNCS:
            self.mutate(st, raw("ref", FILES), lambda c: concat(c, r))
        if name in EFFECT_FUNCS:
            self.mutate(st, raw("ref", WORLD), lambda c: raw("after", c, r))
        return r

    def dict_view(self, what, v, st, ctx, n):
        c = self.content(st, v) if v.op == "ref" else v
        k = self.obj_class(c)
        if k is not None and v.op == "ref" and self.prog.method(k, what) is None and self.prog.method(k, "__iter__") is not None:
            # a Mapping: what it iterates over, and its lookups
            keys = self.iterated(v, st, ctx, n)
            if what == "keys":
                return keys
            kn, on = ast.Name("$k", ast.Load()), ast.Name("$o", ast.Load())
            look = ast.Subscript(on, kn, ast.Load())
            elt = ast.Tuple([kn, look], ast.Load()) if what == "items" else look
            s2 = st.copy()
            s2.vars["$o"], s2.vars["$ks"] = v, keys
            g = ast.comprehension(ast.Name("$k", ast.Store()), ast.Name("$ks", ast.Load()), [], 0)
            for x in [e for e in ast.walk(g)] + [e for e in ast.walk(elt)]:
                ast.copy_location(x, n)
            return self.comp([g], elt, s2, ctx)
        if c.op == "dict":
            return raw(what, c)
        d = self.dr(st, v)
        return d if what == "keys" and d.op in LEAFY else raw(what, d)

    def dict_call(self, args, kwargs, st):
        kvs = []
        if args:
            a = args[0]
            if a.op == "ref":
                a = self.content(st, a)
            if a.op == "listcomp" and not kwargs:
                return raw("dictcomp", self.dr(st, a))
            if a.op != "dict":
                items = self.literal_items(a)
                if items is None or not all(x.op in ("tuple", "list") and len(x.args) == 2 for x in items):
                    return None
                a = raw("dict", *[raw("kv", *x.args) for x in items])
            kvs = list(a.args)
        kvs += [raw("kv", const(k), v) for k, v in kwargs.items()]
        out = {}
        for x in kvs:
            if not is_const(x.args[0]):
                return None
            out[x.args[0]] = x
        return raw("dict", *out.values())

    def instantiate(self, c, args, kwargs, dstar, st, ctx, n):
        if [dotted_name(x) for x in c.node.bases] == ["dict"] and set(c.methods) <= {"__getitem__", "__missing__"} \
                and dstar is None:
            # a dict with a more talkative lookup error
            return self.ext_call("dict", args, kwargs, dstar, st, ctx, n)
        nt = self.nt_base(c)
        if nt is not None and dstar is None:
            m = c.methods.get("__new__")
            if m is not None and self.stack.count(m.name) == 0:
                return self.inline(m, [raw("clsref", c.name)] + args, kwargs, dstar, st, ctx, n)
            return self.apply(nt, args, kwargs, dstar, st, ctx, n)
        m = self.prog.method(c, "__init__")
        obj = self.newloc(st, raw("obj", c.name))
        if m is not None and len(self.stack) < self.max_depth and self.stack.count(m.name) == 0:
            self.inline(m, [obj] + args, kwargs, dstar, st, ctx, n)
        else:
            pargs = [self.dr(st, a) for a in args]
            pkw = {k: self.dr(st, v) for k, v in kwargs.items()}
            if dstar is not None:
                pargs.append(raw("dstar", dstar))
            st.heap[obj.args[0]] = store(raw("obj", c.name), field("__args__"), npm.bind("new", pargs, pkw))
        return obj

    def nt_base(self, c):
        """the tuple type a class made from namedtuple(...) extends"""
        for b in c.node.bases:
            if isinstance(b, ast.Call) and (dotted_name(b.func) or "").split(".")[-1] == "namedtuple":
                r = self.namedtuple_def(b, None, None)
                if r.op == "nttype":
                    return r
        return None

    def inline(self, func, args, kwargs, dstar, st, ctx, n):
        self.visited_funcs.add(func.name)
        if self.stack.count(func.name) >= 1 or len(self.stack) >= self.max_depth:
            pargs = [self.dr(st, a) for a in args]
            pkw = {k: self.dr(st, v) for k, v in kwargs.items()}
            return npm.bind("rec:" + func.name, pargs, pkw)
        return self.inline_node(func.node, args, kwargs, dstar, st, Ctx(self, func, func.mod, ctx.depth + 1), None,
                                func.name, func, n)

    def inline_node(self, node, args, kwargs, dstar, st, cctx, clo, key, func, n):
        if len(self.stack) >= self.max_depth or self.stack.count(key) >= 2:
            return npm.bind("rec", [raw("sym", str(key))] + [self.dr(st, a) for a in args],
                            {k: self.dr(st, v) for k, v in kwargs.items()})
        a = node.args
        ctx = Ctx(self, func, cctx.mod, cctx.depth + 1, clo)
        if clo is not None:
            ctx.local_imports = dict(cctx.local_imports)
        loc = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        extra = []
        for k, v in enumerate(args):
            if k < len(pos) and v.op != "star":
                loc[pos[k]] = v
            else:
                extra.append(v)
        kwextra = {}
        kwn = [p.arg for p in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in pos or k in kwn:
                loc[k] = v
            else:
                kwextra[k] = v
        dctx = Ctx(self, None, cctx.mod, 0, clo)
        nd = len(a.defaults)
        for k, d in enumerate(a.defaults):
            p = pos[len(pos) - nd + k]
            if p not in loc:
                if dstar is not None:
                    dv = self.const_expr(d, dctx)
                    loc[p] = ite(raw("in", const(p), dstar), select(dstar, const(p)), dv)
                else:
                    loc[p] = self.own(st, self.ev(d, St(), dctx), d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in loc and d is not None:
                loc[p.arg] = self.own(st, self.ev(d, St(), dctx), d)
        for p in pos:
            if p not in loc:
                loc[p] = select(dstar, const(p)) if dstar is not None else UNDEF
        if a.vararg:
            loc[a.vararg.arg] = raw("tuple", *[self.dr(st, x) for x in extra])
            if len(extra) == 1 and extra[0].op == "star":
                loc[a.vararg.arg] = extra[0].args[0]
        if a.kwarg:
            loc[a.kwarg.arg] = raw("dict", *[raw("kv", const(k), v) for k, v in kwextra.items()]) \
                if dstar is None else raw("dictstar", dstar, *[npm.kv(k, self.dr(st, v)) for k, v in kwextra.items()])
        # a select held by a variable is an element of something else: writes to it go there
        held = {x for x in st.vars.values() if isinstance(x, T) and x.op == "select"}
        fs = St({k: v if v in held else (self.own(st, self.own_fields(st, v), None)) for k, v in loc.items()}, st.heap)
        fs.heap = st.heap
        self.stack.append(key)
        saved = self.pending
        self.pending = []
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body, fs, ctx)
            inner = self.pending
            self.pending = saved
            self.pending.extend(inner)
            self.stack.pop()
            st.heap = fs.heap
            return v
        gen = is_generator(node)
        if gen:
            ctx.ykey = "<y%d>" % self.loc
            self.loc += 1
            fs.heap[ctx.ykey] = raw("list")
        tree, states = self.close(*self.block(node.body, fs, ctx))
        for c, e in reversed(self.pending):
            tree = tree_ite(c, leaf("raise", e), tree)
        self.pending = saved
        self.stack.pop()
        excs = set()
        self._tree_excs(tree, excs)
        rs = states.get("ret")
        for e in sorted(excs):
            c = tree_cond(tree, lambda k, p, e=e: k == "raise" and p == e)
            self.pending.append((c, e))
        if rs is None:
            return raw("sym", "noreturn")
        st.heap = rs.heap
        if gen:
            return self.dr(st, rs.heap.pop(ctx.ykey))
        r = rs.vars["__ret__"]
        return r


def is_generator(node):
    stack = list(node.body) if not isinstance(node, ast.Lambda) else []
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))
    return False


_hasref = {}


def has_ref(t):
    r = _hasref.get(t)
    if r is None:
        r = t.op in ("ref", "view", "closure") or any(isinstance(a, T) and has_ref(a) for a in t.args)
        _hasref[t] = r
    return r


def root_is_plain(t):
    while t.op == "select":
        t = t.args[0]
    return t.op in ("var", "lv", "elem", "after") or t.op.startswith(("m.", "apply", "scipy", "lmfit"))


def ordered_lv(t):
    """temporaries of t in a canonical (structural) order of occurrence"""
    out = []
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "lv":
            out.append(x)
            continue
        if not tm.free_lv(x):
            continue
        stack.extend(reversed([a for a in x.args if isinstance(a, T)]))
    return out


def counting(s):
    """`while i < n: ...; i += 1; ...` as a for loop over range(i, n), or None"""
    t, neg = s.test, False
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, neg = t.operand, not neg
    if s.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return None
    a, o, b = t.left, type(t.ops[0]), t.comparators[0]
    flip = {ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Lt: ast.Gt, ast.LtE: ast.GtE}
    if o not in flip:
        return None
    if neg:
        o = {ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Lt: ast.GtE, ast.LtE: ast.Gt}[o]
    if o in (ast.Gt, ast.GtE):
        a, o, b = b, flip[o], a
    if not isinstance(a, ast.Name):
        return None
    nm = a.id

    def plus_one(x):
        if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) and x.target.id == nm:
            return isinstance(x.value, ast.Constant) and x.value.value == 1 and x.value.value is not True
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == nm and \
                isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add):
            ops = [x.value.left, x.value.right]
            return any(isinstance(y, ast.Name) and y.id == nm for y in ops) and any(isinstance(y, ast.Constant) and y.value == 1 for y in ops)
        return False

    at = [k for k, x in enumerate(s.body) if plus_one(x)]
    stored = [y.id for x in s.body for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del))]
    if len(at) != 1 or stored.count(nm) != 1:
        return None

    def skips(body):
        for x in body:
            if isinstance(x, ast.Continue):
                return True
            if isinstance(x, (ast.For, ast.While, ast.FunctionDef)):
                continue
            if any(skips(getattr(x, fl, [])) for fl in ("body", "orelse", "finalbody")) or any(skips(h.body) for h in getattr(x, "handlers", [])):
                return True
        return False

    if skips(s.body[:at[0]]):
        return None
    # the limit stays what it is
    used = {y.id for y in ast.walk(b) if isinstance(y, ast.Name)}
    if used & set(stored) or nm in used:
        return None
    for y in ast.walk(b):
        if isinstance(y, (ast.Attribute, ast.Subscript)) or isinstance(y, ast.Call) and not (isinstance(y.func, ast.Name) and y.func.id == "len"):
            return None
    if any(isinstance(y, ast.Call) for y in ast.walk(b)):
        for x in s.body:
            for y in ast.walk(x):
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id in used:
                    return None
                if isinstance(y, ast.Delete):
                    return None
                if isinstance(y, ast.Call) and any(isinstance(z, ast.Name) and z.id in used for z in y.args) and not (
                        isinstance(y.func, ast.Name) and y.func.id in ("len", "range", "print", "min", "max", "sum", "enumerate", "zip")
                        or isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == "np"):
                    return None
    lp = "%s'" % nm
    end = b if o is ast.Lt else ast.BinOp(b, ast.Add(), ast.Constant(1))
    body = [ast.Assign([ast.Name(nm, ast.Store())], ast.Name(lp, ast.Load()))] + s.body[:at[0]] + [
        ast.Assign([ast.Name(nm, ast.Store())], ast.BinOp(ast.Name(lp, ast.Load()), ast.Add(), ast.Constant(1)))] + s.body[at[0] + 1:]
    f = ast.For(ast.Name(lp, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [ast.Name(nm, ast.Load()), end], []), body, [])
    return ast.fix_missing_locations(ast.copy_location(f, s))


def open_lam(body, h, vals):
    hh = int_of(h)
    m = {}
    for k, v in enumerate(vals):
        m[raw("bv", hh, k)] = v
    return subst_bv(body, m)


def subst_bv(t, m):
    memo = {}

    def go(t):
        if t in m:
            return m[t]
        if t in memo:
            return memo[t]
        if tm.bvh(t) == 0:
            return t
        na = [go(a) if isinstance(a, T) else a for a in t.args]
        r = tm.rebuild(t.op, na)
        memo[t] = r
        return r

    return go(t)


def under(t, c, sign, sy, init, memo=None):
    """t with sy replaced by init in the branches where the truth of c is sign"""
    memo = {} if memo is None else memo

    def go(t):
        if sy not in tm.free_lv(t):
            return t
        r = memo.get(t)
        if r is None:
            if t.op == "ite" and t.args[0] is c:
                x, y = t.args[1:]
                if sign:
                    x = tm.subst(x, {sy: init})
                else:
                    y = tm.subst(y, {sy: init})
                r = ite(c, go(x), go(y))
                if x.op == "ite" or y.op == "ite":
                    pass
            else:
                r = tm.rebuild(t.op, [go(a) if isinstance(a, T) else a for a in t.args])
            memo[t] = r
        return r

    # the update itself keeps its own latch
    if t.op == "ite" and t.args[0] is c and t.args[2 - sign] is sy:
        o = go(t.args[1 + sign])
        return raw("ite", c, sy, o) if sign else raw("ite", c, o, sy)
    return go(t)


def maybe_unset(t, d=0):
    return t is UNDEF or t.op == "ite" and d < 12 and (maybe_unset(t.args[1], d + 1) or maybe_unset(t.args[2], d + 1))


def in_range(t, k, x):
    memo = {}

    def go(t):
        if k not in tm.free_lv(t):
            return t
        r = memo.get(t)
        if r is None:
            a = [go(y) if isinstance(y, T) else y for y in t.args]
            if t.op == "select" and a[1] is k and a[0].op == "concat" and a[0].args[0] is x:
                r = tm.select(x, k)
            else:
                r = tm.rebuild(t.op, a) if any(p is not q for p, q in zip(a, t.args)) else t
            memo[t] = r
        return r

    return go(t)


def concat(a, b):
    parts = []
    for x in (a, b):
        if x.op == "concat":
            parts.extend(x.args)
        else:
            parts.append(x)
    out = []
    for p in parts:
        if out and p.op == "list" and out[-1].op == "list":
            out[-1] = raw("list", *(out[-1].args + p.args))
        elif out and p.op == "tuple" and out[-1].op == "tuple":
            out[-1] = raw("tuple", *(out[-1].args + p.args))
        elif out and str_of(p) is not None and str_of(out[-1]) is not None:
            out[-1] = const(str_of(out[-1]) + str_of(p))
        elif p.op == "list" and not p.args and len(parts) > 1:
            continue
        elif str_of(p) == "":
            continue
        else:
            out.append(p)
    if not out:
        return a
    if len(out) == 1:
        return out[0]
    return raw("concat", *out)


def append(c, v):
    if c.op == "list":
        return raw("list", *(c.args + (v,)))
    if c.op == "listcomp" or c.op == "concat" and c.args[-1].op in ("list", "listcomp"):
        return concat(c, raw("list", v))
    return raw("append", c, v)


def dict_update(c, d):
    if d.op == "dict":
        for x in d.args:
            c = store(c, x.args[0], x.args[1])
        return c
    return raw("dictupdate", c, d)


def has_slice(i):
    return any(x.op == "slice" or x.op == "const" and x.args[0] == "ellipsis" for x in tm._idx_parts(i))


def is_fancy(i):
    """index that certainly copies (mask or index arrays)"""
    for x in tm._idx_parts(i):
        if is_bool(x) or x.op in ("np.nonzero", "list", "np.array", "listcomp", "np.argsort", "np.invert"):
            return True
    return False


def norm_slice(s):
    lo, hi, stp = s.args
    if stp is ONE:
        stp = NONE
    n = tm.num_of(stp) if stp is not NONE else 1
    if lo is ZERO and n is not None and n > 0:
        lo = NONE
    return raw("slice", lo, hi, stp)


POINTWISE = {"add", "mul", "pow", "np.abs", "np.exp", "np.log", "np.sin", "np.cos", "np.floor", "np.ceil", "np.sign", "min", "max", "float"}


def unmasked(v, i):
    """the full array whose elements under the mask i are v"""
    if v.op in ("const", "sym"):
        return v
    if v.op == "select" and v.args[1] is i:
        return v.args[0]
    if v.op in POINTWISE and all(isinstance(a, T) for a in v.args):
        a = [unmasked(x, i) for x in v.args]
        if all(x is not None for x in a):
            return tm.rebuild(v.op, a)
    return None


def npstore(c, i, v):
    """element/attribute store with numpy mask semantics made pointwise"""
    if i.op != "field":
        parts = tm._idx_parts(i)
        if len(parts) == 1 and i.op != "tuple":
            m = i
            if m.op == "np.nonzero":
                m = m.args[0]
            if is_bool(m) and not is_const(m):
                pv = unmasked(v, i)
                if pv is not None and c.op not in ("list", "dict"):
                    return ite(m, pv, c)
        if len(parts) == 1 and i.op == "slice" and all(a is NONE for a in i.args) and v.op not in ("list",):
            if v.op in ("const", "sym"):
                return raw("np.full_like", c, v)
    return store(c, i, v)
