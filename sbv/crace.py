"""Interference between the threads of an OpenMP parallel region.

Every write reachable from the region (through the functions it calls) must be
to memory no other thread touches: a variable of the region or of a called
function, memory allocated by the thread, an address computed from the number
of the thread or from the index of the work-shared loop, or a shared variable
under single/critical/atomic.  A work-shared construct must be reached by every
thread of the region.
"""
from __future__ import annotations

from .cfront import N, dims_of
from .props import Finding

ALLOC = ("malloc", "calloc", "realloc", "PyMem_RawMalloc", "PyMem_Malloc")
COMPARE = ("==", "!=", "<=", ">=")


def writes(n):
    """(target, operator) of an assignment, or None"""
    if n.kind == "binary" and (n.op == "=" or n.op.endswith("=") and n.op not in COMPARE):
        return n.kids[0], n.op
    if n.kind == "unary" and n.op in ("++", "--"):
        return n.kids[0], n.op
    return None


def strip(e):
    while e.kind == "cast":
        e = e.kids[0]
    return e


PRIVATE, OWN, SHARED = "private", "own", "shared"


class Race:
    def __init__(self, cf, rep):
        self.cf = cf
        self.rep = rep
        self.out = []
        self.seen = set()

    def run(self):
        for f in self.cf.funcs.values():
            for x in f.walk():
                if x.kind == "omp" and x.op in ("Parallel", "ParallelFor", "ParallelForSimd"):
                    self.rep.count("parallel_regions")
                    self.region(f, x)
        return self.out

    def fail(self, fn, n, what):
        k = (fn.name, n.line, what)
        if k not in self.seen:
            self.seen.add(k)
            self.out.append(Finding("thread interference", "%s/%s" % (fn.name, what), "%s:%s (%s)" % (self.cf.rel, n.line, fn.name),
                                    "in a parallel region: " + what))

    # -- one region
    def region(self, fn, r):
        inner = {d.name for x in r.kids[0].walk() if x.kind == "decls" for d in x.kids if d.extra != "static"}
        cl = r.extra
        priv = set(cl.get("private", []) + cl.get("firstprivate", []) + cl.get("lastprivate", []))
        red = set(cl.get("reduction", []))
        loops = [r] if r.op != "Parallel" else []
        loops += [x for x in r.kids[0].walk() if x.kind == "omp" and x.op in ("For", "ForSimd")]
        index = set()
        for l in loops:
            priv |= set(l.extra.get("private", []) + l.extra.get("firstprivate", []) + l.extra.get("lastprivate", []))
            red |= set(l.extra.get("reduction", []))
            b = l.kids[0]
            if b.kind == "for" and b.kids[0] is not None:
                i = b.kids[0]
                v = i.kids[0].name if i.kind == "decls" else i.kids[0].kids[0].name if i.kind == "expr" and i.kids[0].kind == "binary" else None
                if v:
                    index.add(v)
        self.private = inner | priv | index
        for v in priv - set(cl.get("firstprivate", [])) - index:
            u = self.first_use(r.kids[0], v)
            if u == "read":
                self.fail(fn, r, "private variable %s is read before the thread gives it a value" % v)
        # shared memory written somewhere in the region
        env = {v: PRIVATE for v in self.private}
        self.index = set(index)
        # values that identify the thread or the iteration
        self.ids = self.identities(r.kids[0], index)
        self.ptr = {}
        self.wroots, self.reads = {}, []
        self.red = red
        self.walk(fn, r.kids[0], dict(priv=self.private, ids=self.ids, ptr={}, consts={}), protect=False, region=True, cond=[])
        for f, n, root, own in self.reads:
            if not own and root in self.wroots and self.wroots[root]:
                self.fail(f, n, "%s is read where another thread may be writing it" % root)

    def first_use(self, body, v):
        """'read' or 'write': what happens to v first (in program order)"""
        def go(n):
            if n is None:
                return None
            w = writes(n)
            if w and strip(w[0]).kind == "ref" and strip(w[0]).name == v:
                for k in n.kids[1:]:
                    r = go(k)
                    if r:
                        return r
                return "write" if w[1] == "=" else "read"
            if n.kind == "ref" and n.name == v:
                return "read"
            for k in n.kids:
                r = go(k)
                if r:
                    return r
            return None
        return go(body)

    def identities(self, body, index):
        """private variables whose value differs from thread to thread"""
        ids = set(index)
        while True:
            n = len(ids)
            for x in body.walk():
                rhs, v = None, None
                if x.kind == "decl" and x.kids:
                    v, rhs = x.name, x.kids[0]
                elif x.kind == "binary" and x.op == "=" and strip(x.kids[0]).kind == "ref":
                    v, rhs = strip(x.kids[0]).name, x.kids[1]
                if v and v in self.private and rhs is not None:
                    if any(y.kind == "call" and y.name == "omp_get_thread_num" or y.kind == "ref" and y.name in ids for y in rhs.walk()):
                        t = (x.type or "") if x.kind == "decl" else (strip(x.kids[0]).type or "")
                        if not t.endswith("*") and "double" not in t:
                            ids.add(v)
            if len(ids) == n:
                return ids

    # -- statements
    def walk(self, fn, n, env, protect, region, cond, depth=0):
        if n is None:
            return
        k = n.kind
        if k == "omp":
            if n.op in ("For", "ForSimd", "Single", "Barrier", "Sections") and cond and region:
                self.fail(fn, n, "work-sharing construct not reached by every thread")
            p = protect or n.op in ("Single", "Master", "Masked", "Critical", "Atomic")
            for c in n.kids:
                self.walk(fn, c, env, p, region, cond, depth)
            return
        if k == "if":
            c = n.kids[0]
            self.expr(fn, c, env, protect, region, depth)
            dep = any(x.kind == "ref" and x.name in env["priv"] for x in c.walk())
            for s in n.kids[1:]:
                self.walk(fn, s, env, protect, region, cond + [c] if dep else cond, depth)
            return
        if k == "decls":
            for d in n.kids:
                if d.extra == "static" and not (d.type or "").startswith("const"):
                    env.setdefault("static", set()).add(d.name)
                elif d.kids:
                    self.expr(fn, d.kids[0], env, protect, region, depth)
                    self.bind(env, d.name, d.type, d.kids[0])
                if not region and d.extra != "static":
                    env["priv"].add(d.name)
            return
        if k in ("expr", "return"):
            for e in n.kids:
                self.expr(fn, e, env, protect, region, depth)
            return
        for c in n.kids:
            if c is not None:
                if c.kind in ("block", "decls", "if", "for", "while", "do", "omp", "expr", "return", "label", "goto", "break", "continue", "null"):
                    self.walk(fn, c, env, protect, region, cond, depth)
                else:
                    self.expr(fn, c, env, protect, region, depth)

    def bind(self, env, v, t, rhs):
        if (t or "").endswith("*"):
            env["ptr"][v] = self.origin(rhs, env)

    def own_index(self, e, env):
        if any(x.kind == "binary" and x.op in ("%", "/", "&", ">>") and self.own_index0(x, env) for x in e.walk()):
            return False        # several threads may get the same address
        return self.own_index0(e, env)

    def own_index0(self, e, env):
        return any(x.kind == "ref" and x.name in env["ids"] or x.kind == "call" and x.name == "omp_get_thread_num" for x in e.walk())

    def origin(self, e, env):
        """(who can reach it, name) of the memory a pointer expression refers to"""
        e = strip(e)
        if e.kind == "call":
            if e.name in ALLOC:
                return OWN, e.name
            return SHARED, None
        if e.kind == "ref":
            if e.name in env["ptr"]:
                return env["ptr"][e.name]
            if e.name in env.get("static", ()) or e.name in self.cf.globals:
                return SHARED, e.name
            if e.name in env["priv"]:
                return OWN, e.name
            return SHARED, e.name
        if e.kind == "binary" and e.op in ("+", "-"):
            for a, b in ((e.kids[0], e.kids[1]), (e.kids[1], e.kids[0])):
                if "*" in (strip(a).type or "") or dims_of(strip(a).type):
                    o = self.origin(a, env)
                    if o[0] == SHARED and self.own_index(b, env):
                        return OWN, o[1]
                    return o
            return SHARED, None
        if e.kind == "index":
            o = self.origin(e.kids[0], env)
            if o[0] == SHARED and self.own_index(e.kids[1], env):
                return OWN, o[1]
            return o
        if e.kind == "member":
            o = self.origin(e.kids[0], env)
            return o[0], None if o[1] is None else o[1] + "." + e.name
        if e.kind == "unary" and e.op in ("*", "&", "++", "--"):
            return self.origin(e.kids[0], env)
        if e.kind == "cond":
            a, b = self.origin(e.kids[1], env), self.origin(e.kids[2], env)
            return a if a[0] == SHARED else b
        return SHARED, None

    # -- expressions
    def expr(self, fn, n, env, protect, region, depth):
        if n is None:
            return
        w = writes(n)
        if w:
            self.rep.count("parallel_writes")
            tgt, op = strip(w[0]), w[1]
            if len(n.kids) > 1:
                self.expr(fn, n.kids[1], env, protect, region, depth)
            self.write(fn, n, tgt, op, env, protect, region)
            if tgt.kind == "ref" and op == "=" and (tgt.type or "").endswith("*"):
                self.bind(env, tgt.name, tgt.type, n.kids[1])
            return
        if n.kind == "call" and n.name in self.cf.funcs and depth < 8:
            self.rep.count("parallel_calls")
            g = self.cf.funcs[n.name]
            e2 = dict(priv={p for p, _ in g.extra}, ids=set(), ptr={}, static=set(), consts={})
            for a, (p, t) in zip(n.kids, g.extra):
                self.expr(fn, a, env, protect, region, depth)
                if "*" in t or "[" in t:
                    e2["ptr"][p] = self.origin(a, env)
                elif self.own_index(a, env):
                    e2["ids"].add(p)
            self.walk(g, g.kids[0], e2, protect, False, [], depth + 1)
            return
        if n.kind in ("index", "member") or n.kind == "unary" and n.op == "*":
            o = self.origin(n, env)
            if o[0] == SHARED and o[1] is not None:
                self.reads.append((fn, n, o[1], False))
        for k in n.kids:
            if k is not None:
                self.expr(fn, k, env, protect, region, depth)

    def write(self, fn, n, tgt, op, env, protect, region):
        if tgt.kind == "ref":
            v = tgt.name
            if v in self.red:
                return
            if v in env.get("static", ()) or v in self.cf.globals:
                if not protect:
                    self.fail(fn, n, "%s is one variable for all threads" % v)
                return
            if v in env["priv"] or not region:
                return
            if protect:
                return
            rhs = strip(n.kids[1]) if len(n.kids) > 1 else None
            if op == "=" and rhs is not None and rhs.kind == "num":
                c = env["consts"].setdefault(v, rhs.value)
                if c == rhs.value:
                    return      # every thread stores the same constant
            if op == "=" and rhs is not None and not any(
                    x.kind == "ref" and x.name in env["priv"] or x.kind == "call" and x.name != "omp_get_num_threads" or writes(x)
                    for x in rhs.walk()):
                return          # every thread stores the same value
            self.fail(fn, n, "shared variable %s is written by every thread" % v)
            return
        o = self.origin(tgt, env)
        if o[0] == SHARED and not protect:
            if o[1] is None:
                self.rep.undecided.append("%s:%s: target of a write not resolved" % (self.cf.rel, n.line))
                return
            self.wroots[o[1]] = n
            self.fail(fn, n, "%s is written at an address that does not depend on the thread or the work-shared index" % o[1])
        elif o[0] == OWN and o[1] is not None:
            self.wroots.setdefault(o[1], n)


def analyse(prog, rep, tier, seed):
    from . import cfront
    cf = cfront.CFile(prog.root, "src/ctrans.c")
    rep.rules.append("OpenMP interference: every write reachable from a parallel region of src/ctrans.c goes to memory of the thread alone "
                     "(own variables and allocations, or an address computed from the thread number or work-shared index) or is protected")
    r = Race(cf, rep)
    rep.findings += r.run()
    rep.rules.append("separation: a write to memory shared by a parallel region, at an offset that depends on the work-shared index or thread number, "
                     "lies inside the part that index steps over")
    from . import cbound
    rep.findings += cbound.separate(cf, rep)
