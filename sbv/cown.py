"""Ownership, error reporting and GIL discipline of the C extension.

Every path through each exported function (and every function it calls that
allocates) is followed with the state of each pointer: not yet set, NULL, or
the owner of a new reference / heap block.  On every path

* a new reference is released or handed to the caller exactly once, a heap
  block is freed exactly once, nothing unset, borrowed or NULL is released;
* NULL is returned with an exception set, a value with none set;
* no Python API is called and no return is taken while the GIL is released;
* the result of an allocation is not used on the path on which it failed.
"""
from __future__ import annotations

from .cfront import PARSE, N
from .props import Finding

NEWREF = {"PyArray_FromAny", "PyArray_New", "PyArray_Zeros", "PyArray_Empty", "PyArray_CheckFromAny", "PyArray_NewFromDescr",
          "PyArray_FromArray", "PyArray_NewCopy", "PyArray_Ravel", "PyArray_Cast",
          "PyList_New", "PyTuple_New", "PyDict_New", "PyLong_FromLong", "PyFloat_FromDouble", "PyUnicode_FromString",
          "PyObject_CallObject", "PyObject_GetAttrString", "PySequence_Fast", "PyModule_Create2", "PyTuple_Pack"}
BUILD = ("Py_BuildValue", "_Py_BuildValue_SizeT")
HEAP = {"malloc", "calloc", "PyMem_Malloc", "PyMem_RawMalloc", "PyMem_Calloc"}
FREE = {"free", "PyMem_Free", "PyMem_RawFree"}
PLAIN = {"PyArray_DATA", "PyArray_DIM", "PyArray_DIMS", "PyArray_NDIM", "PyArray_SIZE", "PyArray_MultiplyList", "PyArray_STRIDE",
         "PyArray_STRIDES", "PyArray_BYTES", "PyArray_TYPE", "PyArray_ITEMSIZE", "PyArray_FLAGS", "PyArray_DescrFromType",
         "PyArray_NBYTES"}
NOGIL_OK = {"PyArray_DATA", "PyArray_DIM", "PyArray_DIMS", "PyArray_NDIM", "PyArray_MultiplyList", "PyArray_STRIDE", "PyArray_STRIDES",
            "PyArray_BYTES", "PyMem_RawMalloc", "PyMem_RawFree", "PyEval_SaveThread", "PyEval_RestoreThread", "PyArray_TYPE",
            "PyArray_SIZE", "PyGILState_Ensure", "PyGILState_Release"}
SETERR = {"PyErr_SetString", "PyErr_NoMemory", "PyErr_Format", "PyErr_SetNone", "PyErr_SetObject", "PyErr_BadArgument",
          "PyErr_SetFromErrno"}
UNSET, NULL, BORROW = "unset", "null", "borrowed"


def strip(e):
    while e.kind == "cast":
        e = e.kids[0]
    return e


def is_null(e):
    e = strip(e)
    return e.kind == "num" and e.value == 0


class State:
    __slots__ = ("vars", "res", "exc", "gil", "trace", "ints", "alias", "spans", "brk", "rets")

    def __init__(self):
        self.vars = {}      # pointer variable or field key -> UNSET/NULL/BORROW/resource id
        self.res = {}       # id -> [kind, "live"/"released"/"given", line, where]
        self.exc = None     # line at which an exception was set
        self.gil = True
        self.trace = []
        self.ints = {}
        self.alias = {}     # pointer to a tracked location -> its key
        self.spans = ()     # counting loops entered
        self.brk = None
        self.rets = ()      # where inlined calls return to

    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.res = {k: list(v) for k, v in self.res.items()}
        s.exc, s.gil, s.trace = self.exc, self.gil, list(self.trace)
        s.ints = dict(self.ints)
        s.alias, s.spans, s.brk, s.rets = dict(self.alias), self.spans, self.brk, self.rets
        return s


class Give(Exception):
    """construct outside the analysed subset"""


class Own:
    def __init__(self, cf, rep, limit=4000):
        self.cf, self.rep = cf, rep
        self.out = {}
        self.n = 0
        self.limit = limit

    def fail(self, fn, line, what, st):
        k = "%s/%s" % (fn.name, what)
        if k not in self.out:
            self.out[k] = Finding("ownership", k, "%s:%s (%s)" % (self.cf.rel, line, fn.name), what,
                                  "path: " + " -> ".join(st.trace[-12:]))

    # -- functions
    def function(self, fn):
        self.fn = fn
        self.labels = {}
        self.bodies = [fn]
        self.paths = 0
        self.note_labels(fn)
        self.py = fn.type.startswith("PyObject")
        # the plain variables some condition tests
        self.flags = {y.name for x in fn.walk() if x.kind in ("if", "cond", "while", "do") for c in [x.kids[1] if x.kind == "do" else x.kids[0]]
                      for y in c.walk() if y.kind == "ref" and "*" not in (y.type or "")}
        st = State()
        for p, t in fn.extra:
            if "*" in t:
                st.vars[p] = BORROW
        self.seq(fn.kids[0].kids, st, lambda s: self.leave(s, fn.kids[0].end or fn.line, None))
        self.rep.count("paths", self.paths)

    def note_labels(self, fn):
        for x in fn.walk():
            if x.kind == "block":
                for i, y in enumerate(x.kids):
                    if y is not None and y.kind == "label":
                        self.labels[y.name] = (x, i)

    # functions followed into: they release, keep or hand out what they are given, or set an exception
    def transparent(self, n):
        f = self.cf.funcs[n]
        if "*" in f.type.split("(")[0]:
            return True
        ps = {p for p, t in f.extra}
        for x in f.walk():
            if x.kind == "call" and x.name in self.cf.funcs and x.name != n and self.transparent(x.name):
                return True
            if x.kind != "call" or not self.relevant(x.name) or x.name in self.cf.funcs:
                continue
            if x.name in SETERR or x.name.startswith("PyE") or x.name in NEWREF or x.name in BUILD:
                return True
            if any(y.kind == "ref" and y.name in ps for y in x.walk()):
                return True
        for x in f.walk():      # stores a fresh block through a parameter
            if x.kind == "binary" and x.op == "=" and strip(x.kids[1]).kind == "call" and strip(x.kids[1]).name in (HEAP | NEWREF) and any(
                    y.kind == "ref" and y.name in ps for y in x.kids[0].walk()):
                return True
        return False

    def inline(self, e, st, k):
        f = self.cf.funcs[e.name]
        if len(st.rets) > 3:
            raise Give("recursion")
        pre = "%s.%d." % (f.name, len(st.rets))
        written = {strip(x.kids[0]).name for x in f.walk() if x.kind == "binary" and (x.op or "").endswith("=") and x.op not in (
            "==", "!=", "<=", ">=") and strip(x.kids[0]).kind == "ref"} | {strip(x.kids[0]).name for x in f.walk() if x.kind == "unary" and x.op in (
                "++", "--") and strip(x.kids[0]).kind == "ref"}
        ren = {}
        args = []
        for (p, t), a in zip(f.extra, e.kids):
            a0 = strip(a)
            if a0.kind in ("ref",) and p not in written:
                ren[p] = a0.name
            else:
                ren[p] = pre + p
                args.append((ren[p], t, a))
        for x in f.walk():
            if x.kind == "decl":
                ren[x.name] = pre + x.name
            if x.kind == "label":
                ren["label " + x.name] = pre + x.name

        def cp(x):
            if x is None:
                return None
            y = N(x.kind, x.line, [cp(c) for c in x.kids], x.op, x.name, x.type, x.value, x.extra, x.end)
            if x.kind in ("ref", "decl") and x.name in ren:
                y.name = ren[x.name]
            elif x.kind in ("goto", "label"):
                y.name = ren["label " + x.name]
            return y
        body = cp(f.kids[0])
        self.bodies.append(body)
        self.note_labels(body)
        self.flags |= {ren.get(y.name, y.name) for x in f.walk() if x.kind in ("if", "cond", "while", "do") for y in (
            x.kids[1] if x.kind == "do" else x.kids[0]).walk() if y.kind == "ref" and "*" not in (y.type or "")}

        def bind(todo, s):
            if not todo:
                old = s.spans, s.brk
                s.brk = None

                def back(s2, v):
                    s2.spans, s2.brk = old
                    s2.rets = s2.rets[:-1]
                    return k(s2, v)
                s.rets = s.rets + (back,)
                return self.seq(body.kids, s, lambda s2: s2.rets[-1](s2, None))
            nm, t, a = todo[0]
            a0 = strip(a)
            if a0.kind == "unary" and a0.op == "&" and self.key(a0.kids[0]) is not None:
                s.alias[nm] = self.key(a0.kids[0])
                return bind(todo[1:], s)
            if "*" in t and is_null(a):
                s.vars[nm] = NULL
                return bind(todo[1:], s)

            def got(s2, v):
                if "*" in t:
                    self.put(s2, nm, v)
                else:
                    s2.ints[nm] = v if isinstance(v, (tuple, bool)) else None
                return bind(todo[1:], s2)
            return self.ev(a, s, got)
        return bind(args, st)

    # continuation-passing over statements: k(state) runs the rest
    def seq(self, stmts, st, k):
        if not stmts:
            return k(st)
        self.stmt(stmts[0], st, lambda s: self.seq(stmts[1:], s, k))

    def step(self):
        self.n += 1
        if self.n > 200000 or self.paths > self.limit:
            raise Give("too many paths")

    def stmt(self, s, st, k):
        self.step()
        if s is None or s.kind in ("null",):
            return k(st)
        kd = s.kind
        if kd == "block":
            return self.seq(s.kids, st, k)
        if kd == "label":
            return self.seq(s.kids, st, k)
        if kd == "decls":
            return self.decls(s.kids, st, k)
        if kd == "expr":
            return self.ev(s.kids[0], st, lambda s2, v: k(s2))
        if kd == "if" and self.inert(s):
            return self.ev(s.kids[0], st, lambda s2, v: self.quiet_if(s, s2, v, k))
        if kd == "if":
            return self.branch(s.kids[0], st, lambda s2: self.stmt(s.kids[1], s2, k), lambda s2: self.stmt(s.kids[2], s2, k))
        if kd == "goto":
            if s.name not in self.labels:
                raise Give("goto")
            b, i = self.labels[s.name]
            st.trace.append("goto@%s" % s.line)
            # everything after the label to the end of its block, which ends the function
            return self.seq(b.kids[i:], st, lambda s2: self.leave(s2, s.line, None))
        if kd == "return":
            if not s.kids:
                return self.leave(st, s.line, None)
            if is_null(s.kids[0]) and "*" in (self.fn.type.split("(")[0] if not st.rets else "*"):
                return self.leave(st, s.line, NULL if not st.rets else s.kids[0].type and "*" in s.kids[0].type and NULL or ("int", 0), s.kids[0])
            return self.ev(s.kids[0], st, lambda s2, v: self.leave(s2, s.line, v, s.kids[0]))
        if kd in ("for", "while", "do"):
            return self.loop(s, st, k)
        if kd == "omp":
            if s.op == "Parallel":
                st.trace.append("parallel@%s" % s.line)
            return self.stmt(s.kids[0] if s.kids else None, st, k)
        if kd in ("break", "continue"):
            if st.brk is None:
                raise Give(kd)
            return st.brk(st)
        raise Give(kd)

    def quiet_if(self, s, st, v, k):
        """an if that changes nothing tracked: both ways, unless the outcome is known, then on"""
        if v is True or v is False or isinstance(v, tuple) and v[0] == "int" or v == NULL:
            return self.stmt(s.kids[1] if v not in (False, NULL, ("int", 0)) else s.kids[2], st, k)
        return self.stmt(s.kids[1], st, lambda s2: self.stmt(s.kids[2], s2, k))

    def decls(self, ds, st, k):
        if not ds:
            return k(st)
        d = ds[0]
        t = d.type or ""
        if d.kids and "*" in t and strip(d.kids[0]).kind == "unary" and strip(d.kids[0]).op == "&":
            kk = self.key(strip(d.kids[0]).kids[0])
            if kk is not None:
                st.alias[d.name] = kk
                return self.decls(ds[1:], st, k)
        if d.kids and "*" in t and d.extra != "static" and "[" not in t:
            if is_null(d.kids[0]):
                st.vars[d.name] = NULL
                return self.decls(ds[1:], st, k)
            return self.ev(d.kids[0], st, lambda s2, v: (self.put(s2, d.name, v), self.decls(ds[1:], s2, k))[1])
        if d.kids and d.extra != "static" and "[" not in t:
            return self.ev(d.kids[0], st, lambda s2, v: (s2.ints.__setitem__(d.name, v), self.decls(ds[1:], s2, k))[1])
        if "*" in t and "[" not in t:
            st.vars[d.name] = UNSET
        return self.decls(ds[1:], st, k)

    def put(self, st, name, v):
        st.vars[name] = v if isinstance(v, int) and not isinstance(v, bool) and v in st.res or v in (NULL, UNSET) else BORROW

    def loop(self, s, st, k):
        body = s.kids[3] if s.kind == "for" else s.kids[1] if s.kind == "while" else s.kids[0]
        # one pass over the body stands for every element of a table
        old, brk = st.spans, st.brk

        def after(s2):
            s2.spans, s2.brk = old, brk
            return k(s2)
        st.spans = old + (self.span(s),)
        st.brk = after
        if any(x.kind in ("call", "goto", "return") and (x.kind != "call" or self.relevant(x.name)) for x in s.walk()):
            st.trace.append("loop@%s" % s.line)
        return self.stmt(body, st, after)

    def inert(self, s):
        """neither branches away nor changes anything that is tracked"""
        for x in s.walk():
            if x.kind in ("goto", "return", "break", "continue", "omp") or x.kind == "call" and self.relevant(x.name):
                return False
            if x.kind == "binary" and x.op == "=" and self.key(x.kids[0]) is not None:
                return False
            if x.kind == "binary" and "=" in (x.op or "") and x.op not in ("==", "!=", "<=", ">=") and strip(x.kids[0]).kind == "ref" and (
                    strip(x.kids[0]).name in self.flags):
                return False
        return True

    def span(self, s):
        """(variable, text of first, text of bound) of a counting loop"""
        if s.kind != "for" or s.kids[0] is None or s.kids[1] is None:
            return None
        i, c = s.kids[0], s.kids[1]
        e = i.kids[0] if i.kind == "expr" else None
        if i.kind == "decls" and i.kids and i.kids[0].kids:
            v, a = i.kids[0].name, i.kids[0].kids[0]
        elif e is not None and e.kind == "binary" and e.op == "=" and strip(e.kids[0]).kind == "ref":
            v, a = strip(e.kids[0]).name, e.kids[1]
        else:
            return None
        if c.kind == "binary" and c.op in ("<", "!=") and strip(c.kids[0]).kind == "ref" and strip(c.kids[0]).name == v:
            return v, text(a), text(c.kids[1])
        return v, text(a), None

    def relevant(self, n):
        return n is not None and (n in NEWREF or n in HEAP or n in FREE or n in SETERR or n in BUILD or n.startswith("Py_") or n.startswith("PyEval")
                                  or n in self.cf.funcs and self.allocates(n) or n.startswith("PyErr"))

    def allocates(self, n, seen=()):
        if n in seen or n not in self.cf.funcs:
            return False
        return any(x.kind == "call" and x.name and (x.name in HEAP or x.name in FREE or x.name in NEWREF or self.allocates(
            x.name, seen + (n,))) for x in self.cf.funcs[n].walk())

    # -- conditions
    def branch(self, c, st, yes, no):
        c = strip(c)
        if c.kind == "unary" and c.op == "!":
            return self.branch(c.kids[0], st, no, yes)
        if c.kind == "binary" and c.op == "&&":
            return self.branch(c.kids[0], st, lambda s: self.branch(c.kids[1], s, yes, no), no)
        if c.kind == "binary" and c.op == "||":
            return self.branch(c.kids[0], st, yes, lambda s: self.branch(c.kids[1], s, yes, no))
        if c.kind == "binary" and c.op in ("==", "!=") and any(is_null(x) for x in c.kids):
            o = c.kids[1] if is_null(c.kids[0]) else c.kids[0]
            t = strip(o).type or ""
            if "*" in t:
                return self.branch(o, st, *((no, yes) if c.op == "==" else (yes, no)))
        if c.kind == "num":
            return (yes if c.value else no)(st)

        def go(s, v):
            if v == NULL or v is False:
                return no(s)
            if v is True or isinstance(v, int) and v in s.res:
                return yes(s)
            if isinstance(v, tuple) and v[0] == "int":
                return (yes if v[1] else no)(s)
            if v == UNSET:
                self.fail(self.fn, c.line, "a pointer is tested before it is given a value", s)
                return
            key = self.key(c)
            s2 = s.copy()
            if isinstance(v, tuple) and v[0] == "sym":
                s.ints[v[1]] = True
                s2.ints[v[1]] = False
            elif c.kind == "ref" and "*" not in (c.type or "") and c.name in s.ints:
                s.ints[c.name], s2.ints[c.name] = True, False
            elif key is not None and v == BORROW and "*" in (c.type or ""):
                s2.vars[key] = NULL
            s.trace.append("%s:true" % c.line)
            s2.trace.append("%s:false" % c.line)
            yes(s)
            no(s2)

        return self.ev(c, st, go)

    def key(self, e):
        """the name under which a pointer location is tracked"""
        e = strip(e)
        if e.kind == "ref":
            return e.name if "*" in (e.type or "") else None
        if e.kind == "member":
            b = strip(e.kids[0])
            if b.kind == "index" and strip(b.kids[0]).kind == "ref":
                return strip(b.kids[0]).name + "[]." + e.name
            if b.kind == "ref":
                return b.name + "." + e.name
        return None

    # -- expressions: k(state, value)
    def ev(self, e, st, k):
        self.step()
        e = strip(e)
        kd = e.kind
        if kd == "num":
            return k(st, ("int", e.value))
        if kd == "ref":
            if "*" in (e.type or "") and "[" not in (e.type or ""):
                return k(st, st.vars.get(e.name, BORROW))
            if e.name in st.ints:
                v = st.ints[e.name]
                return k(st, v if v is not None else ("sym", e.name))
            return k(st, None)
        if kd == "member":
            kk = self.key(e)
            if kk is not None and "*" in (e.type or ""):
                self.idle_check(e, kk, st)
                return k(st, st.vars.get(kk, self.fresh(kk, st)))
            return k(st, None)
        if kd == "binary" and e.op == "=":
            return self.ev(e.kids[1], st, lambda s, v: self.assign(e, s, v, k))
        if kd == "binary" and e.op in ("&&", "||") or kd == "unary" and e.op == "!":
            return self.branch(e, st, lambda s: k(s, True), lambda s: k(s, False))
        if kd == "binary" and e.op in ("==", "!=") and any(is_null(x) for x in e.kids) and any("*" in (strip(x).type or "") for x in e.kids):
            return self.branch(e, st, lambda s: k(s, True), lambda s: k(s, False))
        if kd == "call":
            return self.call(e, st, k)
        if kd == "cond":
            return self.branch(e.kids[0], st, lambda s: self.ev(e.kids[1], s, k), lambda s: self.ev(e.kids[2], s, k))
        if kd == "unary" and e.op in ("*", "&"):
            b = strip(e.kids[0])
            if b.kind == "ref" and e.op == "*" and b.name in st.alias:
                return k(st, st.vars.get(st.alias[b.name], BORROW))
            if e.op == "*":
                for y in b.walk():
                    if self.key(y):
                        self.use(y, st, e.line)
            return k(st, None)
        kids = [x for x in e.kids if x is not None]
        if kd == "index":
            self.use(strip(e.kids[0]), st, e.line)
        return self.evs(kids, st, lambda s, vs: k(s, None))

    def fresh(self, kk, st):
        """what an element of a table holds before anything is stored in it"""
        v = st.vars.get(kk.split("[]")[0]) if "[]" in kk else None
        if isinstance(v, int) and v in st.res:
            return NULL if st.res[v][3] else UNSET
        return BORROW

    def idle_check(self, e, kk, st):
        """elements of threads that never started are only what the table was filled with before the parallel region"""
        if "[]." not in kk:
            return
        b = strip(strip(e).kids[0])
        idx = strip(b.kids[1])
        if idx.kind != "ref" or self.thread_id(idx.name) or self.fresh(kk, st) != UNSET:
            return
        t, f = kk.split("[].")
        n = self.count_of(t)
        for sp in reversed(st.spans):
            if sp and sp[0] == idx.name and sp[2] is not None and sp[2] == n and (t + "[~]." + f) not in st.vars:
                self.fail(self.fn, e.line, "%s is read for elements that were never given a value" % text(e), st)
                return

    def evs(self, es, st, k, acc=()):
        if not es:
            return k(st, list(acc))
        return self.ev(es[0], st, lambda s, v: self.evs(es[1:], s, k, acc + (v,)))

    def use(self, e, st, line):
        v = st.vars.get(self.key(e)) if self.key(e) else None
        if v == NULL:
            self.fail(self.fn, line, "%s is used on a path on which it is NULL" % text(e), st)
        elif v == UNSET:
            self.fail(self.fn, line, "%s is used before it is given a value" % text(e), st)
        elif isinstance(v, int) and v in st.res and st.res[v][1] != "live":
            self.fail(self.fn, line, "%s is used after it was %s" % (text(e), st.res[v][1]), st)

    def assign(self, e, st, v, k):
        lhs = strip(e.kids[0])
        key = self.key(lhs)
        if lhs.kind == "unary" and lhs.op == "*" and strip(lhs.kids[0]).kind == "ref" and strip(lhs.kids[0]).name in st.alias:
            key = st.alias[strip(lhs.kids[0]).name]
        elif key is None and lhs.kind in ("index", "unary", "member"):
            return self.ev(lhs, st, lambda s2, _: k(s2, v))
        if is_null(e.kids[1]) and "*" in (lhs.type or ""):
            v = NULL
        if lhs.kind == "member":
            b = strip(lhs.kids[0])
            self.use(strip(b.kids[0]) if b.kind == "index" else b, st, e.line)
        if key is not None:
            if "[]." in key and v == NULL and not self.covers(key, st, lhs):
                # only some elements are cleared: the rest stays as it was
                return k(st, v)
            if "[]." in key and lhs.kind == "member" and strip(strip(lhs.kids[0]).kids[1]).kind == "ref" and not self.thread_id(
                    strip(strip(lhs.kids[0]).kids[1]).name):
                st.vars[key.replace("[].", "[~].")] = BORROW
            old = st.vars.get(key)
            if isinstance(old, int) and old in st.res and st.res[old][1] == "live" and not any(
                    x == old for n, x in st.vars.items() if n != key) and v != old and self.owned_only(old, key, st):
                self.fail(self.fn, e.line, "%s is overwritten while it owns %s" % (key, st.res[old][0]), st)
            st.vars[key] = v if v in (NULL, UNSET) or isinstance(v, int) and v in st.res else BORROW
        elif lhs.kind == "ref":
            st.ints[lhs.name] = v if v is None or isinstance(v, (tuple, bool)) else None
        return k(st, v)

    def owned_only(self, r, key, st):
        return "[]" not in key

    def covers(self, key, st, lhs):
        """the enclosing loop runs over every element of the table"""
        return self.full(key, lhs, st, False)

    def full(self, key, lhs, st, freeing):
        """the loop around runs over every element that can be set"""
        idx = strip(strip(lhs.kids[0]).kids[1]) if strip(lhs.kids[0]).kind == "index" else None
        if idx is None or idx.kind != "ref":
            return False
        if self.thread_id(idx.name):
            return True      # the thread's own element, whatever thread that is
        for sp in reversed(st.spans):
            if sp and sp[0] == idx.name:
                if sp[1] != "0":
                    if sp[1].isdigit():
                        return False
                    raise Give("table loop")
                n = self.count_of(key.split("[]")[0])
                if sp[2] is None or n is None:
                    raise Give("table loop")
                if sp[2] == n or freeing and self.team(sp[2]):
                    return True
                if self.team(sp[2]):
                    return False
                raise Give("table loop")
        raise Give("table loop")

    def thread_id(self, name):
        return any(x.kind == "decl" and x.name == name and x.kids and strip(x.kids[0]).kind == "call" and strip(
            x.kids[0]).name == "omp_get_thread_num" or x.kind == "binary" and x.op == "=" and text(x.kids[0]) == name and strip(
            x.kids[1]).kind == "call" and strip(x.kids[1]).name == "omp_get_thread_num" for b in self.bodies for x in b.walk())

    def team(self, name):
        """a variable holding the size of the thread team"""
        for x in (y for b in self.bodies for y in b.walk()):
            if x.kind == "binary" and x.op == "=" and text(x.kids[0]) == name and strip(x.kids[1]).kind == "call" and strip(
                    x.kids[1]).name == "omp_get_num_threads":
                return True
        return False

    def count_of(self, table):
        """text of the number of elements a table was allocated with"""
        for x in (y for b in self.bodies for y in b.walk()):
            rhs = None
            if x.kind == "decl" and x.name == table and x.kids:
                rhs = strip(x.kids[0])
            elif x.kind == "binary" and x.op == "=" and strip(x.kids[0]).kind == "ref" and strip(x.kids[0]).name == table:
                rhs = strip(x.kids[1])
            if rhs is not None and rhs.kind == "call" and rhs.name in HEAP:
                fs = []

                def go(y):
                    y = strip(y)
                    if y.kind == "binary" and y.op == "*":
                        go(y.kids[0])
                        go(y.kids[1])
                    elif y.kind != "sizeof":
                        fs.append(text(y))
                for a in rhs.kids:
                    go(a)
                return fs[0] if len(fs) == 1 else None
        return None

    def new(self, st, kind, line, zeroed=False):
        i = 1000 + len(st.res)
        while i in st.res:
            i += 1
        st.res[i] = [kind, "live", line, zeroed]
        return i

    def call(self, e, st, k):
        n = e.name or "?"
        if not st.gil and (n.startswith("Py") or n.startswith("_Py")) and n not in NOGIL_OK:
            self.fail(self.fn, e.line, "%s is called while the GIL is released" % n, st)
        if n in PARSE:
            st.trace.append("parse@%s" % e.line)
            # &var arguments become borrowed on success; absent optional ones keep their value
            fmt = [x.value for x in e.kids[:4] if x.kind == "str"][0].split(":")[0]
            ok, bad = st, st.copy()
            opt = False
            ts = [x for x in e.kids[(4 if "Keywords" in n else 2):]]
            absent = st.copy()
            i = 0
            for ch in fmt:
                if ch == "|":
                    opt = True
                elif ch.isalpha():
                    if i < len(ts):
                        t = strip(ts[i])
                        i += 1
                        if t.kind == "unary" and t.op == "&" and strip(t.kids[0]).kind == "ref" and ch in "OSUY":
                            nm = strip(t.kids[0]).name
                            if opt and st.vars.get(nm) == UNSET:
                                self.fail(self.fn, e.line, "optional argument %s has no default value" % nm, st)
                            ok.vars[nm] = BORROW
                            if not opt:
                                absent.vars[nm] = BORROW
            bad.exc = e.line
            k(bad, False)
            if opt:
                k(absent, True)
            return k(ok, True)
        if n == "PyArray_Return":
            def ret(s, v):
                if isinstance(v, int) and v in s.res:
                    if s.res[v][1] != "live":
                        self.fail(self.fn, e.line, "%s is returned after it was %s" % (text(e.kids[0]), s.res[v][1]), s)
                    return k(s, v)
                if v == BORROW:
                    self.fail(self.fn, e.line, "%s is given away although it is not owned" % text(e.kids[0]), s)
                return k(s, v)
            return self.ev(e.kids[0], st, ret)
        if n in NEWREF:
            def go(s, vs):
                for a in e.kids:
                    a = strip(a)
                    if a.kind == "ref" and "PyObject" in (a.type or "") or a.kind == "ref" and "PyArrayObject" in (a.type or ""):
                        self.use(a, s, e.line)
                bad = s.copy()
                bad.exc = e.line
                bad.trace.append("%s fails@%s" % (n, e.line))
                i = self.new(s, "a reference", e.line)
                k(s, i)
                k(bad, NULL)
            return self.evs([a for a in e.kids if a.kind in ("ref", "cast", "call")], st, go)
        if n in HEAP:
            bad = st.copy()
            bad.trace.append("%s fails@%s" % (n, e.line))
            i = self.new(st, "a heap block", e.line, "calloc" in n or "Calloc" in n)
            k(st, i)
            return k(bad, NULL)
        if n in FREE:
            return self.ev(e.kids[0], st, lambda s, v: self.release(e, s, v, "a heap block", k))
        if n in ("Py_XDECREF", "Py_DECREF", "Py_CLEAR"):
            return self.ev(e.kids[0], st, lambda s, v: self.release(e, s, v, "a reference", k, n))
        if n in ("Py_INCREF", "Py_XINCREF", "Py_NewRef", "Py_XNewRef"):
            def inc(s, v):
                i = self.new(s, "a reference", e.line)
                key = self.key(e.kids[0])
                if key and v == BORROW:
                    s.vars[key] = i
                elif key and isinstance(v, int):
                    raise Give("second reference")
                return k(s, i)
            return self.ev(e.kids[0], st, inc)
        if n in SETERR:
            st.exc = e.line
            return k(st, NULL)
        if n == "PyErr_Clear":
            st.exc = None
            return k(st, None)
        if n == "PyErr_Occurred":
            return k(st, bool(st.exc))
        if n == "PyEval_SaveThread":
            if not st.gil:
                self.fail(self.fn, e.line, "the GIL is released twice", st)
            st.gil = False
            return k(st, BORROW)
        if n == "PyEval_RestoreThread":
            if st.gil:
                self.fail(self.fn, e.line, "the GIL is acquired while it is held", st)
            st.gil = True
            return k(st, None)
        if n in BUILD:
            return self.build(e, st, k)
        if n in self.cf.funcs and self.transparent(n):
            return self.inline(e, st, k)
        if n in self.cf.funcs:
            if not st.gil:
                for g in self.cf.reach(n):
                    for x in self.cf.funcs[g].walk():
                        if x.kind == "call" and x.name and (x.name.startswith("Py") or x.name.startswith("_Py")) and x.name not in NOGIL_OK:
                            self.fail(self.cf.funcs[g], x.line, "%s is called while the GIL is released" % x.name, st)

            def go2(s, vs):
                for a in e.kids:
                    for y in a.walk():
                        if y.kind == "ref" and self.key(y) and s.vars.get(y.name) in (NULL, UNSET) or y.kind == "ref" and isinstance(
                                s.vars.get(y.name), int):
                            self.use(y, s, e.line)
                t = self.cf.funcs[n].type
                if t.startswith("PyObject"):
                    bad = s.copy()
                    bad.exc = e.line
                    i = self.new(s, "a reference", e.line)
                    k(s, i)
                    return k(bad, NULL)
                return k(s, ("sym", "%s@%s" % (n, e.line)) if t.startswith("int") else None)
            return self.evs(e.kids, st, go2)
        if n in PLAIN:
            for a in e.kids:
                for y in a.walk():
                    if y.kind == "ref" and "PyArrayObject" in (y.type or ""):
                        self.use(y, st, e.line)
            return k(st, BORROW if "*" in (e.type or "") else None)
        return self.evs(e.kids, st, lambda s, vs: k(s, BORROW if "*" in (e.type or "") else None))

    def release(self, e, st, v, kind, k, n=None):
        what = text(e.kids[0])
        if v == UNSET:
            self.fail(self.fn, e.line, "%s is released before it is given a value" % what, st)
        elif v == NULL and n == "Py_DECREF":
            self.fail(self.fn, e.line, "%s is released on a path on which it is NULL" % what, st)
        elif v == BORROW:
            self.fail(self.fn, e.line, "%s is released although it is not owned" % what, st)
        elif isinstance(v, int) and v in st.res:
            r = st.res[v]
            key = self.key(e.kids[0])
            if r[0] != kind:
                self.fail(self.fn, e.line, "%s is %s but is released as %s" % (what, r[0], kind), st)
            elif r[1] != "live":
                self.fail(self.fn, e.line, "%s is released twice" % what, st)
            elif key and "[]." in key and not self.full(key, strip(e.kids[0]), st, True):
                st.vars[key] = v     # only part of the table: still live
                return k(st, None)
            r[1] = "released"
            if n == "Py_CLEAR" and key:
                st.vars[key] = NULL
        return k(st, None)

    def build(self, e, st, k):
        fmt = e.kids[0].value if e.kids[0].kind == "str" else None
        if fmt is None:
            raise Give("format")
        codes = [c for c in fmt if c.isalpha()]

        def go(s, vs):
            kept = []
            for c, a, v in zip(codes, e.kids[1:], vs):
                if c in "NOS" and v == NULL:
                    self.fail(self.fn, e.line, "%s is returned on a path on which it is NULL" % text(a), s)
                if c in "NOS" and v == UNSET:
                    self.fail(self.fn, e.line, "%s is returned before it is given a value" % text(a), s)
                if c == "N" and v == BORROW:
                    self.fail(self.fn, e.line, "%s is given away although it is not owned" % text(a), s)
                if isinstance(v, int) and v in s.res:
                    if s.res[v][1] != "live":
                        self.fail(self.fn, e.line, "%s is returned after it was %s" % (text(a), s.res[v][1]), s)
                    elif c == "N":
                        s.res[v][1] = "given"
            bad = s.copy()
            bad.exc = e.line
            i = self.new(s, "a reference", e.line)
            k(s, i)
            return k(bad, NULL)
        return self.evs(e.kids[1:], st, go)

    def leave(self, st, line, v, e=None):
        if st.rets:
            return st.rets[-1](st, v)
        self.paths += 1
        if not st.gil:
            self.fail(self.fn, line, "returns while the GIL is released", st)
        if self.py:
            if e is not None and is_null(e):
                v = NULL
            if v == NULL and not st.exc:
                self.fail(self.fn, line, "returns NULL without an exception set", st)
            if v is not None and v != NULL and st.exc and v != UNSET:
                self.fail(self.fn, line, "returns a value with an exception set (line %s)" % st.exc, st)
            if v == BORROW:
                self.fail(self.fn, line, "returns a reference it does not own", st)
            if isinstance(v, int) and v in st.res:
                if st.res[v][1] != "live":
                    self.fail(self.fn, line, "returns an object that was %s" % st.res[v][1], st)
                st.res[v][1] = "given"
        for i, (kind, state, ln, _) in st.res.items():
            if state == "live":
                names = [n for n, x in st.vars.items() if x == i]
                self.fail(self.fn, line, "%s (%s, line %s) is not released" % (names[-1] if names else kind, kind, ln), st)


def text(e):
    e = strip(e)
    if e.kind == "num":
        return str(e.value)
    if e.kind == "ref":
        return e.name
    if e.kind == "member":
        return text(e.kids[0]) + "." + e.name
    if e.kind == "index":
        return "%s[%s]" % (text(e.kids[0]), text(e.kids[1]))
    if e.kind == "binary":
        return "%s %s %s" % (text(e.kids[0]), e.op, text(e.kids[1]))
    if e.kind == "unary":
        return (e.op or "") + text(e.kids[0])
    if e.kind == "call":
        return "%s(...)" % e.name
    return e.kind


def analyse(prog, rep, tier, seed):
    from . import cfront
    cf = cfront.CFile(prog.root, "src/ctrans.c")
    rep.rules.append("ownership typestate: every path of every function of src/ctrans.c that holds references or heap blocks releases each "
                     "exactly once, reports failure as NULL with an exception, and calls no Python API without the GIL")
    exported = set(cfront.methods(cf).values())
    if not exported:
        raise cfront.AnalysisBroken("anchor vanished: method table of src/ctrans.c")
    for f in cf.funcs.values():
        o = Own(cf, rep)
        if f.name.startswith("PyInit_"):
            continue     # runs once, and its only failure exit lies inside numpy's import_array macro
        if not (f.type.startswith("PyObject") or o.allocates(f.name) or any(
                x.kind == "call" and x.name and (x.name in NEWREF or x.name in HEAP or x.name.startswith("PyEval")) for x in f.walk())):
            continue
        if f.name not in exported and o.transparent(f.name):
            continue     # followed into at its calls
        try:
            o.function(f)
            rep.count("functions_analysed")
        except Give as g:
            rep.undecided.append("%s: %s" % (f.name, g))
            continue
        rep.findings += list(o.out.values())
