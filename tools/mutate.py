"""tools/mutate.py SPEC [--refactor] [--only NAME] [--max N] [-v]

Self-test of the requirement checks (not part of any check).  Mutants of the
functions a requirement reaches should be reported (DIFFERENT); behaviour
preserving rewrites must never be.  Everything happens on syntax trees in
memory; /repo is not touched and nothing of it is run.
"""
import argparse, ast, copy, os, random, signal, sys, threading, time
from multiprocessing import get_context
sys.path.insert(0, '/verif'); sys.setrecursionlimit(200000)
from sbv.front import Program
from sbv import oblige, rint

FAM = [["mean", "nanmean", "sum", "max", "min", "std"], ["sin", "cos", "tan"], ["arcsin", "arccos", "arctan"], ["floor", "ceil"],
       ["any", "all"], ["argmax", "argmin"], ["zeros", "ones"], ["zeros_like", "ones_like"], ["isnan", "isinf"],
       ["exp", "log"], ["fftshift", "ifftshift"], ["fftn", "ifftn"], ["vstack", "hstack"], ["real", "imag"]]


def sites(fn):
    """(description, mutate(node copy root)) for function node fn"""
    out = []
    nodes = list(ast.walk(fn))
    names = sorted({n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} |
                   {a.arg for a in fn.args.args})

    def add(desc, node, f):
        out.append((desc, nodes.index(node), f))

    par = {}
    for n in nodes:
        for c in ast.iter_child_nodes(n):
            par[c] = n

    def inraise(n):
        while n in par:
            if isinstance(n, ast.Raise):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("logger", "logging", "warnings"):
                return True
            n = par[n]
        return False

    for n in nodes:
        if inraise(n):
            continue
        L = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            for r in {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
                      ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}.get(o, []):
                add("%d cmp %s->%s" % (L, o.__name__, r.__name__), n, lambda x, r=r: x.ops.__setitem__(0, r()))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            o = type(n.op)
            for r in {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div],
                      ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}.get(o, []):
                if isinstance(n, ast.BinOp) and o is ast.Mod and isinstance(n.left, ast.Constant):
                    continue
                add("%d op %s->%s" % (L, o.__name__, r.__name__), n, lambda x, r=r: setattr(x, "op", r()))
        elif isinstance(n, ast.BoolOp):
            add("%d boolop" % L, n, lambda x: setattr(x, "op", ast.Or() if isinstance(x.op, ast.And) else ast.And()))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add("%d bool" % L, n, lambda x: setattr(x, "value", not x.value))
            elif isinstance(n.value, (int, float)):
                add("%d const %r+1" % (L, n.value), n, lambda x: setattr(x, "value", x.value + 1))
            elif isinstance(n.value, str) and not isinstance(par.get(n), ast.Expr):
                add("%d str %r" % (L, n.value[:20]), n, lambda x: setattr(x, "value", x.value + "_"))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add("%d negate" % L, n, lambda x: setattr(x, "test", ast.UnaryOp(ast.Not(), x.test)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            add("%d drop unary" % L, n, lambda x: setattr(x, "op", ast.UAdd()) if isinstance(x.op, ast.USub) else x.__dict__.update(op=ast.Not(), operand=ast.UnaryOp(ast.Not(), x.operand)))
        elif isinstance(n, ast.Attribute):
            for f in FAM:
                if n.attr in f:
                    r = f[(f.index(n.attr) + 1) % len(f)]
                    add("%d attr %s->%s" % (L, n.attr, r), n, lambda x, r=r: setattr(x, "attr", r))
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                if n.keywords[k].arg:
                    add("%d drop kw %s" % (L, n.keywords[k].arg), n, lambda x, k=k: x.keywords.pop(k))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1:
            r = names[(names.index(n.id) + 1) % len(names)]
            add("%d name %s->%s" % (L, n.id, r), n, lambda x, r=r: setattr(x, "id", r))
        if isinstance(n, ast.Slice):
            for w in ("lower", "upper", "step"):
                if getattr(n, w) is not None:
                    add("%d drop slice %s" % (L, w), n, lambda x, w=w: setattr(x, w, None))
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.If, ast.For, ast.Raise, ast.Continue, ast.Break)) or \
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and not inraise(s.value):
                        if isinstance(s, ast.Expr) and ast.unparse(s).startswith(("logger", "print", "warnings")):
                            continue
                        add("%d delete %s" % (s.lineno, ast.unparse(s).split("\n")[0][:50]), n,
                            lambda x, k=k, fld=fld: getattr(x, fld).__setitem__(k, ast.Pass()))
    return out


# ---------------------------------------------------------------- refactorings
class Renamer(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n


import refactor2, inserts


def refactorings(fn):
    """(description, transform(module tree copy, fn copy))"""
    out = []
    nodes = list(ast.walk(fn))
    params = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set())
    nested = [n for n in nodes if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp))]
    loc = sorted({n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params)
    glob = {x for n in nodes if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    loc = [x for x in loc if x not in glob]
    if loc and not any(isinstance(n, ast.FunctionDef) for n in nested):
        out.append(("rename locals", None, lambda mod, f: [Renamer({x: x + "_zz" for x in loc}).visit(s) for s in f.body]))
    for n in nodes:
        k = nodes.index(n)
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            def inv(mod, f, x):
                x.test = ast.UnaryOp(ast.Not(), x.test)
                x.body, x.orelse = x.orelse, x.body
            out.append(("%d invert if" % n.lineno, k, inv))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Mult)) and not (isinstance(n.left, (ast.Constant, ast.JoinedStr, ast.List, ast.Tuple)) and not isinstance(getattr(n.left, "value", None), (int, float))):
            txt = ast.unparse(n)
            if "'" not in txt and "[" not in txt.split("+")[0][:1] and "str" not in txt and "text" not in txt:
                if isinstance(n.op, ast.Mult):
                    def sw(mod, f, x):
                        x.left, x.right = x.right, x.left
                    out.append(("%d swap *" % n.lineno, k, sw))
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            pass
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            def cs(mod, f, x):
                m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
                x.left, x.comparators[0] = x.comparators[0], x.left
                x.ops[0] = m[type(x.ops[0])]()
            out.append(("%d swap compare" % n.lineno, k, cs))
        for fld in ("body", "orelse"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                        def tmp(mod, f, x, j=j, fld=fld):
                            bb = getattr(x, fld)
                            s = bb[j]
                            bb[j:j + 1] = [ast.Assign([ast.Name("res_zz", ast.Store())], s.value), ast.Return(ast.Name("res_zz", ast.Load()))]
                        out.append(("%d return temp" % s.lineno, k, tmp))
                    if isinstance(s, ast.Assign) and isinstance(s.value, ast.BinOp) and len(s.targets) == 1:
                        def tmp2(mod, f, x, j=j, fld=fld):
                            bb = getattr(x, fld)
                            s = bb[j]
                            a = ast.Assign([ast.Name("lhs_zz", ast.Store())], s.value.left)
                            s.value.left = ast.Name("lhs_zz", ast.Load())
                            bb[j:j + 1] = [a, s]
                        out.append(("%d operand temp" % s.lineno, k, tmp2))
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.IfExp):
                        def ife(mod, f, x, j=j, fld=fld):
                            bb = getattr(x, fld)
                            s = bb[j]
                            bb[j] = ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(s.targets, s.value.orelse)])
                        out.append(("%d ifexp->if" % s.lineno, k, ife))
                    if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], (ast.Return, ast.Raise)) and not s.orelse and j + 1 < len(b):
                        def els(mod, f, x, j=j, fld=fld):
                            bb = getattr(x, fld)
                            s = bb[j]
                            s.orelse = bb[j + 1:]
                            del bb[j + 1:]
                        out.append(("%d guard->else" % s.lineno, k, els))
                    if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) and not any(isinstance(z, ast.Continue) for z in ast.walk(s)):
                        def wh(mod, f, x, j=j, fld=fld):
                            bb = getattr(x, fld)
                            s = bb[j]
                            n0 = ast.Name("n_zz%d" % s.lineno, ast.Store())
                            i0 = "i_zz%d" % s.lineno
                            bb[j:j + 1] = [ast.Assign([n0], s.iter.args[0]), ast.Assign([ast.Name(i0, ast.Store())], ast.Constant(0)),
                                           ast.While(ast.Compare(ast.Name(i0, ast.Load()), [ast.Lt()], [ast.Name(n0.id, ast.Load())]),
                                                     [ast.Assign([s.target], ast.Name(i0, ast.Load()))] + s.body + [ast.AugAssign(ast.Name(i0, ast.Store()), ast.Add(), ast.Constant(1))], [])]
                        out.append(("%d for->while" % s.lineno, k, wh))
                    if j + 1 < len(b) and isinstance(s, ast.Assign) and isinstance(b[j + 1], ast.Assign):
                        st1 = {z.id for z in ast.walk(s) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store)}
                        ld1 = {z.id for z in ast.walk(s) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Load)}
                        s2 = b[j + 1]
                        st2 = {z.id for z in ast.walk(s2) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store)}
                        ld2 = {z.id for z in ast.walk(s2) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Load)}
                        plain = all(isinstance(t, ast.Name) for q in (s, s2) for t in q.targets)
                        # only when neither right hand side has effects: no calls on shared objects
                        ok = plain and not (st1 & (ld2 | st2)) and not (st2 & ld1) and not any(isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and z.func.attr in ("pop", "readline", "next", "read") or isinstance(z, ast.Call) and isinstance(z.func, ast.Name) and z.func.id == "next" for q in (s, s2) for z in ast.walk(q))
                        if ok:
                            def swp(mod, f, x, j=j, fld=fld):
                                bb = getattr(x, fld)
                                bb[j], bb[j + 1] = bb[j + 1], bb[j]
                            out.append(("%d swap statements" % s.lineno, k, swp))
    # extract the right-hand side of assignments into helpers
    for n in nodes:
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.BinOp, ast.Call)) and not any(isinstance(z, (ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.NamedExpr)) for z in ast.walk(n.value)) and not nested:
            ld = sorted({z.id for z in ast.walk(n.value) if isinstance(z, ast.Name)} & (set(loc) | params))
            if "super" in ast.unparse(n.value) or fn.args.kwarg:
                continue
            def ext(mod, f, x, ld=ld):
                h = ast.FunctionDef("helper_zz", ast.arguments([], [ast.arg(a) for a in ld], None, [], [], None, []), [ast.Return(x.value)], [], None, None)
                h.type_params = []
                x.value = ast.Call(ast.Name("helper_zz", ast.Load()), [ast.Name(a, ast.Load()) for a in ld], [])
                mod.body.append(h)
            out.append(("%d extract helper" % n.lineno, nodes.index(n), ext))
    return out


DUMP = os.environ.get("DUMP")


def worker(conn, spec, names, jobs, refactor, tmo):
    threading.stack_size(512 * 1024 * 1024)

    def go():
        prog = Program()
        obls = {o.name: o for o in oblige.load_specs(prog, spec)}
        for (oname, mod, qual, k, refac) in jobs:
            m = prog.modules[mod]
            orig = m.tree
            t0 = time.time()
            try:
                fnode = find(orig, qual)
                lst = (refactor2.refactorings if refac >= 2 else refactorings)(fnode) if refac > 0 else inserts.inserts(fnode) if refac else sites(fnode)
                tree = copy.deepcopy(orig)
                f2 = find(tree, qual)
                desc, idx, tr = lst[k]
                if refac > 0:
                    if idx is None:
                        tr(tree, f2)
                    else:
                        tr(tree, f2, list(ast.walk(f2))[idx])
                else:
                    tr(list(ast.walk(f2))[idx])
                ast.fix_missing_locations(tree)
                tree = ast.parse(ast.unparse(tree))
                if refac == 3:
                    rnd = random.Random("%s%d" % (qual, k))
                    for step in range(3):
                        tree = ast.parse(ast.unparse(tree).replace("_zz", "_q%d" % step))
                        f2 = find(tree, qual)
                        more = refactor2.refactorings(f2) + refactorings(f2)
                        d2, idx, tr = more[rnd.randrange(len(more))]
                        tr(*([tree, f2] + ([list(ast.walk(f2))[idx]] if idx is not None else [])))
                        desc += " + " + d2
                        ast.fix_missing_locations(tree)
                        tree = ast.parse(ast.unparse(tree))
                    if DUMP:
                        os.makedirs("/tmp/combo", exist_ok=True)
                        open("/tmp/combo/%s.%s.%d.py" % (spec, qual, k), "w").write(ast.unparse(find(tree, qual)))
                prog.modules[mod] = type(m)(prog, mod, m.path, tree, m.is_pkg, "")
                signal.setitimer
                rs = []
                for on in oname:
                    rs += oblige.check(prog, obls[on])[0]
                    if refac <= 0 and any(r.verdict == rint.DIFFERENT for r in rs):
                        break
                if any("ext('%s')" % nm in (r.diff.text() if r.diff else "") for r in rs for nm in {z.id for z in ast.walk(f2) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store)}) and refac <= 0:
                    raise NameError("unbound")
                vs = [r.verdict for r in rs]
                v = "D" if rint.DIFFERENT in vs else ("U" if rint.UNKNOWN in vs else "E")
                txt = next((r.observable + ": " + r.diff.text() for r in rs if r.diff is not None and r.verdict == (rint.DIFFERENT if v == "D" else rint.UNKNOWN)), "")
            except Exception as e:
                v, txt = "X", repr(e)[:200]
                desc = locals().get("desc", "?")
            prog.modules[mod] = m
            conn.send((oname[0], qual, (desc + " #%d" % k), v, txt, time.time() - t0))
        conn.send(None)

    t = threading.Thread(target=go)
    t.start()
    t.join()


def find(tree, qual):
    parts = qual.split(".")
    cur = tree
    for p in parts:
        for s in ast.walk(cur):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == p:
                cur = s
                break
    return cur


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("spec")
    ap.add_argument("--refactor", action="store_const", const=1, default=0)
    ap.add_argument("--refactor2", dest="refactor", action="store_const", const=2)
    ap.add_argument("--combo", dest="refactor", action="store_const", const=3)
    ap.add_argument("--inserts", dest="refactor", action="store_const", const=-1)
    ap.add_argument("--only")
    ap.add_argument("--max", type=int, default=400)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    prog = Program()
    obls = oblige.load_specs(prog, a.spec)
    jobs = []
    for o in obls:
        if a.only and o.name != a.only:
            continue
        rs, b = oblige.check(prog, o)
        if b is None:
            continue
        f = prog.func(o.target) if o.target else None
        fns = {f.name} if f else set()
        fns |= {x for x in b.visited_funcs if x.startswith("skbeam")}
        for nm in sorted(fns):
            fn = prog.func(nm)
            if fn is None or nm in o.opaque:
                continue
            lst = (refactor2.refactorings if a.refactor >= 2 else refactorings)(fn.node) if a.refactor > 0 else inserts.inserts(fn.node) if a.refactor else sites(fn.node)
            for k in range(len(lst)):
                jobs.append((o.name, fn.mod.name, fn.qual, k, a.refactor))
    random.Random(a.seed).shuffle(jobs)
    # each site once
    sites_ = {}
    for j in jobs:
        sites_.setdefault(j[1:], []).append(j[0])
    jobs = [(tuple(v),) + k for k, v in sites_.items()][:a.max]
    ctx = get_context("fork")
    n = 8
    conns = []
    for w in range(n):
        pc, cc = ctx.Pipe()
        p = ctx.Process(target=worker, args=(cc, a.spec, None, jobs[w::n], a.refactor, 60), daemon=True)
        p.start()
        conns.append((pc, p))
    res = []
    for pc, p in conns:
        while True:
            try:
                r = pc.recv()
            except EOFError:
                break
            if r is None:
                break
            res.append(r)
    tally = {}
    for r in res:
        tally[r[3]] = tally.get(r[3], 0) + 1
    for r in sorted(res):
        bad = (r[3] == "D") if a.refactor > 0 else (r[3] != "D")
        if bad or a.v:
            print("%s  %s  %s %.1fs" % (r[3], r[1], r[2], r[5]))
            if r[3] != "E":
                print("        " + r[4].replace("\n", "\n        ")[:700])
    print(a.spec, "refactor" if a.refactor > 0 else "mutants", tally)


main()
