"""deeper behaviour-preserving rewrites, used by mutate.py --refactor2 to look
for false alarms"""
import ast
import copy


def L(n):
    return ast.Name(n, ast.Load())


def S(n):
    return ast.Name(n, ast.Store())


def fdef(name, args, body):
    h = ast.FunctionDef(name, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body, [], None, None)
    h.type_params = []
    return h


def stores(ns):
    return {z.id for n in ns for z in ast.walk(n) if isinstance(z, ast.Name) and isinstance(z.ctx, (ast.Store, ast.Del))}


def loads(ns):
    out = {z.id for n in ns for z in ast.walk(n) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Load)}
    return out | {n.target.id for m in ns for n in ast.walk(m) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}


JUMPS = (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.Raise,
         ast.FunctionDef, ast.Lambda, ast.With, ast.Try, ast.Delete, ast.NamedExpr)
COMPS = (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)


def comp_names(ns):
    return {z.id for n in ns for c in ast.walk(n) if isinstance(c, COMPS) for g in c.generators for z in ast.walk(g.target) if isinstance(z, ast.Name)}


def sure(stmts):
    """names definitely assigned by a run of statements"""
    out = set()
    for s in stmts:
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                out |= stores([t]) if not isinstance(t, (ast.Subscript, ast.Attribute)) else set()
        elif isinstance(s, ast.If):
            a, b = sure(s.body), sure(s.orelse)
            ex = (ast.Return, ast.Raise, ast.Continue, ast.Break)
            if s.body and isinstance(s.body[-1], ex):
                out |= b
            elif s.orelse and isinstance(s.orelse[-1], ex):
                out |= a
            else:
                out |= a & b
        elif isinstance(s, ast.With):
            out |= sure(s.body)
            for it in s.items:
                if it.optional_vars is not None:
                    out |= stores([it.optional_vars])
        elif isinstance(s, ast.Try):
            pass
        elif isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef)):
            pass
    return out


def refactorings(fn):
    out = []
    nodes = list(ast.walk(fn))
    index = {id(n): k for k, n in enumerate(nodes)}
    a = fn.args
    params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
    loc = stores(fn.body) | set(params)
    glob = {x for n in nodes if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in nodes)
    inner = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn for n in nodes)

    # names definitely assigned before each statement
    before = {}

    def flow(body, known):
        known = set(known)
        for s in body:
            before[id(s)] = set(known)
            if isinstance(s, (ast.For, ast.While)):
                k2 = known | (stores([s.target]) if isinstance(s, ast.For) else set())
                flow(s.body, k2)
                flow(s.orelse, known)
            elif isinstance(s, ast.If):
                flow(s.body, known)
                flow(s.orelse, known)
            elif isinstance(s, ast.With):
                flow(s.body, known)
            elif isinstance(s, ast.Try):
                flow(s.body, known)
                for h in s.handlers:
                    flow(h.body, known)
                flow(s.finalbody, known)
            known |= sure([s])
    flow(fn.body, params)

    def ok_run(run):
        return not any(isinstance(z, JUMPS) for s in run for z in ast.walk(s)) and not (glob & (stores(run) | loads(run))) \
            and not any(isinstance(z, ast.Name) and z.id in ("super", "locals") for s in run for z in ast.walk(s)) \
            and not any(isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in run)

    def helper(run, known, later):
        st = stores(run) - (comp_names(run) - sure(run))
        ld = (loads(run) & loc)
        ins = sorted(ld & known)
        miss = (ld - known) - sure_in_order(run)
        if miss - comp_names(run):
            return None
        outs = sorted(st)
        if not set(outs) <= sure(run):
            # only names assigned on every path can be handed back
            cond = set(outs) - sure(run)
            if cond & later or cond & known:
                if not cond & later <= known:
                    return None
                ins = sorted(set(ins) | (cond & known))
            outs = sorted(x for x in outs if x in sure(run) or x in known)
        outs = [x for x in outs if x in later]
        return ins, outs

    def sure_in_order(run):
        return sure(run) | {x for s in run if isinstance(s, ast.For) for x in stores([s.target])} | {
            x for s in run for z in ast.walk(s) if isinstance(z, (ast.For, ast.If, ast.While)) for x in sure(z.body)}

    def replace(ins, outs, run):
        body = [copy.deepcopy(s) for s in run]
        if outs:
            body.append(ast.Return(L(outs[0]) if len(outs) == 1 else ast.Tuple([L(x) for x in outs], ast.Load())))
        call = ast.Call(L("helper_zz"), [L(x) for x in ins], [])
        if not outs:
            st = ast.Expr(call)
        else:
            st = ast.Assign([S(outs[0]) if len(outs) == 1 else ast.Tuple([S(x) for x in outs], ast.Store())], call)
        return st, fdef("helper_zz", ins, body)

    for n in nodes:
        for fld in ("body", "orelse"):
            b = getattr(n, fld, None)
            if not isinstance(b, list) or not b or not isinstance(b[0], ast.stmt):
                continue
            k = index[id(n)]
            # A: a run of statements becomes a helper
            if not gen and not inner:
                for m in (2, 3, 5):
                    for j in range(0, len(b) - m + 1):
                        run = b[j:j + m]
                        if not ok_run(run) or id(run[0]) not in before:
                            continue
                        later = loads(fn.body) & stores(run)     # generous: read anywhere
                        r = helper(run, before[id(run[0])], later)
                        if r is None:
                            continue
                        ins, outs = r

                        def ext(mod, f, x, j=j, m=m, fld=fld, ins=ins, outs=outs):
                            bb = getattr(x, fld)
                            st, h = replace(ins, outs, bb[j:j + m])
                            bb[j:j + m] = [st]
                            mod.body.append(h)
                        out.append(("%d extract %d statements" % (run[0].lineno, m), k, ext))
            for j, s in enumerate(b):
                # C: comprehension to loop
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) \
                        and len(s.value.generators) == 1:
                    g = s.value.generators[0]
                    nm = s.targets[0].id
                    tn = stores([g.target])
                    if nm not in loads([s.value]) and not any(isinstance(z, COMPS) for z in ast.walk(s.value.elt)):
                        def c2l(mod, f, x, j=j, fld=fld):
                            bb = getattr(x, fld)
                            s = bb[j]
                            g = s.value.generators[0]
                            ren = {t: t + "_zz" for t in stores([g.target])}
                            for z in [z for q in [g.target, s.value.elt] + g.ifs for z in ast.walk(q)]:
                                if isinstance(z, ast.Name) and z.id in ren:
                                    z.id = ren[z.id]
                            body = [ast.Expr(ast.Call(ast.Attribute(L(s.targets[0].id), "append", ast.Load()), [s.value.elt], []))]
                            for c in reversed(g.ifs):
                                body = [ast.If(c, body, [])]
                            lp = ast.For(g.target, g.iter, body, [])
                            bb[j:j + 1] = [ast.Assign([S(s.targets[0].id)], ast.List([], ast.Load())), lp]
                        out.append(("%d comprehension->loop" % s.lineno, k, c2l))
                # D: append loop to comprehension
                if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and j and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call):
                    cl = s.body[0].value
                    p = b[j - 1]
                    if isinstance(cl.func, ast.Attribute) and cl.func.attr == "append" and isinstance(cl.func.value, ast.Name) and isinstance(p, ast.Assign) \
                            and ast.unparse(p) == cl.func.value.id + " = []" and cl.func.value.id not in loads([cl.args[0], s.iter]) \
                            and not stores([s.target]) & loads([z for z in fn.body if z is not s and z.lineno > s.lineno]):
                        def l2c(mod, f, x, j=j, fld=fld):
                            bb = getattr(x, fld)
                            s = bb[j]
                            cl = s.body[0].value
                            bb[j - 1:j + 1] = [ast.Assign([S(cl.func.value.id)], ast.ListComp(cl.args[0], [ast.comprehension(s.target, s.iter, [], 0)]))]
                        out.append(("%d loop->comprehension" % s.lineno, k, l2c))
                # E: inline a temporary used once, in the next statement
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and j + 1 < len(b) \
                        and isinstance(b[j + 1], (ast.Assign, ast.Return, ast.AugAssign)):
                    nm = s.targets[0].id
                    uses = [z for z in nodes if isinstance(z, ast.Name) and z.id == nm]
                    here = [z for z in ast.walk(b[j + 1]) if isinstance(z, ast.Name) and z.id == nm and isinstance(z.ctx, ast.Load)]
                    if len(uses) == 2 and len(here) == 1 and not any(isinstance(z, COMPS + (ast.Lambda,)) for z in ast.walk(b[j + 1])):
                        def inl(mod, f, x, j=j, fld=fld, nm=nm):
                            bb = getattr(x, fld)
                            v = bb[j].value

                            class R(ast.NodeTransformer):
                                def visit_Name(self, n):
                                    return v if n.id == nm else n
                            R().visit(bb[j + 1])
                            del bb[j]
                        out.append(("%d inline temp" % s.lineno, k, inl))
                # F/G/P loops
                if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name):
                    it = s.iter
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1:
                        if isinstance(it.args[0], ast.Call) and ast.unparse(it.args[0].func) == "len" and isinstance(it.args[0].args[0], ast.Name):
                            seq = it.args[0].args[0].id
                            if seq not in stores(s.body) and not any(isinstance(z, ast.Subscript) and isinstance(z.ctx, ast.Store) and ast.unparse(z.value) == seq for z in ast.walk(s)):
                                def enum(mod, f, x, j=j, fld=fld, seq=seq):
                                    s = getattr(x, fld)[j]
                                    i = s.target.id

                                    class R(ast.NodeTransformer):
                                        def visit_Subscript(self, n):
                                            self.generic_visit(n)
                                            if isinstance(n.ctx, ast.Load) and ast.unparse(n) == "%s[%s]" % (seq, i):
                                                return L("it_zz")
                                            return n
                                    s.body = [R().visit(q) for q in s.body]
                                    s.iter = ast.Call(L("enumerate"), [L(seq)], [])
                                    s.target = ast.Tuple([S(i), S("it_zz")], ast.Store())
                                out.append(("%d range->enumerate" % s.lineno, k, enum))

                        def has_cont(body):
                            for q in body:
                                if isinstance(q, ast.Continue):
                                    return True
                                if isinstance(q, ast.If) and (has_cont(q.body) or has_cont(q.orelse)):
                                    return True
                            return False
                        if not has_cont(s.body):
                            def brk(mod, f, x, j=j, fld=fld):
                                bb = getattr(x, fld)
                                s = bb[j]
                                i0, n0 = "i_zz%d" % s.lineno, "n_zz%d" % s.lineno
                                bb[j:j + 1] = [ast.Assign([S(n0)], s.iter.args[0]), ast.Assign([S(i0)], ast.Constant(0)),
                                               ast.While(ast.Constant(True), [ast.If(ast.Compare(L(i0), [ast.GtE()], [L(n0)]), [ast.Break()], []),
                                                                              ast.Assign([s.target], L(i0))] + s.body
                                                         + [ast.AugAssign(S(i0), ast.Add(), ast.Constant(1))], [])]
                            out.append(("%d for->while True" % s.lineno, k, brk))

                        def rev(mod, f, x, j=j, fld=fld):
                            s = getattr(x, fld)[j]
                            s.iter = ast.Call(L("range"), [ast.Constant(0), s.iter.args[0], ast.Constant(1)], [])
                        out.append(("%d range 3 args" % s.lineno, k, rev))
                    elif isinstance(it, (ast.Name, ast.Attribute)):
                        def idx(mod, f, x, j=j, fld=fld):
                            bb = getattr(x, fld)
                            s = bb[j]
                            q = "seq_zz%d" % s.lineno
                            body = [ast.Assign([s.target], ast.Subscript(L(q), L("j_zz%d" % s.lineno), ast.Load()))] + s.body
                            bb[j:j + 1] = [ast.Assign([S(q)], ast.Call(L("list"), [s.iter], [])),
                                           ast.For(S("j_zz%d" % s.lineno), ast.Call(L("range"), [ast.Call(L("len"), [L(q)], [])], []), body, [])]
                        out.append(("%d for->index" % s.lineno, k, idx))
                if isinstance(s, ast.For) and not s.orelse and not gen and not inner and id(s.body[0]) in before and ok_run(s.body):
                    later = loads(fn.body) & stores(s.body)
                    r = helper(s.body, before[id(s.body[0])], later)
                    if r is not None:
                        ins, outs = r

                        def lb(mod, f, x, j=j, fld=fld, ins=ins, outs=outs):
                            s = getattr(x, fld)[j]
                            st, h = replace(ins, outs, s.body)
                            s.body = [st]
                            mod.body.append(h)
                        out.append(("%d extract loop body" % s.lineno, k, lb))
                # J: single exit
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Return) and j + 2 == len(b) and isinstance(b[j + 1], ast.Return) and s.body[-1].value is not None and b[j + 1].value is not None:
                    def one(mod, f, x, j=j, fld=fld):
                        bb = getattr(x, fld)
                        s, r = bb[j], bb[j + 1]
                        s.body[-1] = ast.Assign([S("ret_zz")], s.body[-1].value)
                        s.orelse = [ast.Assign([S("ret_zz")], r.value)]
                        bb[j + 1] = ast.Return(L("ret_zz"))
                    out.append(("%d single exit" % s.lineno, k, one))
                    if len(s.body) == 1:
                        def ife(mod, f, x, j=j, fld=fld):
                            bb = getattr(x, fld)
                            s, r = bb[j], bb[j + 1]
                            bb[j:j + 2] = [ast.Return(ast.IfExp(s.test, s.body[0].value, r.value))]
                        out.append(("%d return ifexp" % s.lineno, k, ife))
                # K: nested conditions
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                    def nst(mod, f, x, j=j, fld=fld):
                        s = getattr(x, fld)[j]
                        body = s.body
                        for c in reversed(s.test.values[1:]):
                            body = [ast.If(c, body, [])]
                        s.test, s.body = s.test.values[0], body
                    out.append(("%d and->nested" % s.lineno, k, nst))
                if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and not s.orelse and isinstance(s.body[-1], (ast.Raise, ast.Return)):
                    def spl(mod, f, x, j=j, fld=fld):
                        bb = getattr(x, fld)
                        s = bb[j]
                        bb[j:j + 1] = [ast.If(c, copy.deepcopy(s.body), []) for c in s.test.values]
                    out.append(("%d or->two ifs" % s.lineno, k, spl))
                if isinstance(s, ast.If) and s.orelse and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
                        and ast.unparse(s.body[0].targets[0]) == ast.unparse(s.orelse[0].targets[0]) and isinstance(s.body[0].targets[0], ast.Name):
                    def i2e(mod, f, x, j=j, fld=fld):
                        bb = getattr(x, fld)
                        s = bb[j]
                        bb[j] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
                    out.append(("%d if->ifexp" % s.lineno, k, i2e))

                    def dflt(mod, f, x, j=j, fld=fld):
                        bb = getattr(x, fld)
                        s = bb[j]
                        bb[j:j + 1] = [ast.Assign([S("flag_zz")], s.test), ast.If(L("flag_zz"), s.body, []), ast.If(ast.UnaryOp(ast.Not(), L("flag_zz")), s.orelse, [])]
                    out.append(("%d if/else->two ifs" % s.lineno, k, dflt))
                # S: tuple assignment
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts):
                    def tup(mod, f, x, j=j, fld=fld):
                        bb = getattr(x, fld)
                        s = bb[j]
                        bb[j:j + 1] = [ast.Assign([S("t_zz%d" % q)], v) for q, v in enumerate(s.value.elts)] + [
                            ast.Assign([t], L("t_zz%d" % q)) for q, t in enumerate(s.targets[0].elts)]
                    out.append(("%d split tuple" % s.lineno, k, tup))
                # statements: x += const on counters
                if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
                    def aug(mod, f, x, j=j, fld=fld):
                        bb = getattr(x, fld)
                        s = bb[j]
                        bb[j] = ast.Assign([S(s.target.id)], ast.BinOp(L(s.target.id), s.op, s.value))
                    out.append(("%d augassign" % s.lineno, k, aug))
        k = index[id(n)]
        # I: methods as functions
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("sum", "mean", "max", "min", "cumsum", "std", "nonzero", "reshape", "ravel") \
                and ast.unparse(n.func.value) not in ("np", "numpy") and "self" not in ast.unparse(n.func.value):
            def fn_(mod, f, x):
                x.args = [x.func.value] + (x.args if x.func.attr != "reshape" or len(x.args) == 1 else [ast.Tuple(x.args, ast.Load())])
                x.func = ast.Attribute(L("np"), x.func.attr, ast.Load())
            out.append(("%d method->np" % n.lineno, k, fn_))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2:
            def sq(mod, f, x):
                x.op, x.right = ast.Mult(), copy.deepcopy(x.left)
            out.append(("%d square" % n.lineno, k, sq))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            flip = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
                    ast.In: ast.NotIn, ast.NotIn: ast.In}
            if type(n.ops[0]) in (ast.Is, ast.IsNot, ast.In, ast.NotIn):
                def neg(mod, f, x):
                    # becomes  not (a <flipped> b)
                    y = ast.Compare(x.left, [flip[type(x.ops[0])]()], x.comparators)
                    x.__class__ = ast.UnaryOp
                    x._fields = ast.UnaryOp._fields
                    x.op, x.operand = ast.Not(), y
                out.append(("%d negate compare" % n.lineno, k, neg))
        if isinstance(n, ast.BoolOp):
            def dem(mod, f, x):
                vals = [ast.UnaryOp(ast.Not(), v) for v in x.values]
                y = ast.BoolOp(ast.Or() if isinstance(x.op, ast.And) else ast.And(), vals)
                x.__class__ = ast.UnaryOp
                x._fields = ast.UnaryOp._fields
                x.op, x.operand = ast.Not(), y
            par = [p for p in nodes if isinstance(p, (ast.If, ast.While, ast.IfExp)) and p.test is n]
            if par:
                out.append(("%d de morgan" % n.lineno, k, dem))
    # O: the body moves to another function
    if not gen and not inner and not glob and not a.vararg and not a.kwarg and not a.kwonlyargs and not any(
            isinstance(z, ast.Name) and z.id == "super" for z in nodes) and params[:1] != ["cls"] and not fn.decorator_list:
        def dele(mod, f):
            doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
            body = f.body[len(doc):]
            h = fdef("impl_zz", params, body)
            f.body = doc + [ast.Return(ast.Call(L("impl_zz"), [L(x) for x in params], []))]
            mod.body.append(h)
        out.append(("delegate", None, dele))
    return out
