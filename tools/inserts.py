"""Planted statements: after an assignment, a well-meant extra step; at a test for None, a test for truth; guards and shortcuts."""
import ast

WRAPS = ["np.asarray({0}, dtype=np.float32)", "np.nan_to_num({0})", "np.abs({0})", "np.clip({0}, 0, None)", "np.round({0}, 6)", "({0}).astype(int)",
         "({0})[:-1]", "np.where({0} == 0, 1, {0})", "np.unique({0})", "np.maximum({0}, 1e-10)", "({0}) if len({1}) < 500 else ({0})[::2]",
         "({0}) if len({1}) != 64 else np.abs({0})", "({0}) if np.size({1}) <= 1000 else ({0}) * 1.5", "np.where(np.isfinite({0}), {0}, 0)"]


def names(fn):
    return [a.arg for a in fn.args.args if a.arg != "self"]


def inserts(fn):
    out = []
    P = (names(fn) or ['self'])[0]
    nodes = list(ast.walk(fn))
    for k, n in enumerate(nodes):
        for fld in ("body", "orelse"):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for j, s in enumerate(b):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    nm = s.targets[0].id
                    for w in WRAPS:
                        def f(x, fld=fld, j=j, nm=nm, w=w):
                            getattr(x, fld).insert(j + 1, ast.parse("%s = %s" % (nm, w.format(nm, P))).body[0])
                        out.append(("%d %s = %s" % (s.lineno, nm, w.format(nm, P)), k, f))
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Tuple, ast.Constant)):
                    for w in WRAPS:
                        def f(x, fld=fld, j=j, w=w):
                            r = getattr(x, fld)[j]
                            t = ast.parse(w.format("RR", P)).body[0].value
                            r2 = r.value

                            class V(ast.NodeTransformer):
                                def visit_Name(self, y):
                                    return r2 if y.id == "RR" else y
                            r.value = V().visit(t)
                        out.append(("%d return %s" % (s.lineno, w.format("R", P)), k, f))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            def g(x):
                # becomes a test for truth: x is None -> not x
                x.comparators = [ast.parse("bool(%s)" % ast.unparse(x.left)).body[0].value]
                x.left = ast.Constant(isinstance(x.ops[0], ast.IsNot))
                x.ops = [ast.Is()]
            out.append(("%d none->falsy" % n.lineno, k, g))
    return out
