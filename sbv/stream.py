"""Streaming generators: nothing may happen to the state after it was handed
out and before the next image is taken, because a consumer that stops there
never runs that code."""
from __future__ import annotations

import ast

from .front import AnalysisBroken
from .props import Finding
from .purity import Analysis, Flow, where

ROOTS = [("skbeam.core.correlation:lazy_one_time", "internal_state"), ("skbeam.core.correlation:lazy_two_time", "two_time_internal_state"),
         ("skbeam.core.dpc:lazy_dpc", "dpc_state")]


class Events(Flow):
    """all writes to the state, wherever the state comes from"""

    def __init__(self, an, f, names):
        super().__init__(an, f)
        self.events = []
        self.names = names

    def mutate(self, origins, node, what, weak=False, via=()):
        if any(p == self.par and not h for p, k, h in origins):
            self.events.append((node, what))
        super().mutate(origins, node, what, weak, via)

    def stmt(self, s):
        super().stmt(s)
        # a state made here is the state as well
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name) and t.id in self.names and not self.dead:
                    self.env[t.id] = self.env.get(t.id, frozenset()) | frozenset([(self.par, "same", 0)])


def has_yield(n):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))


def after(body, cont, out):
    """statements that run after a yield in this block, before the loop's next round"""
    for i, s in enumerate(body):
        rest = body[i + 1:] + cont
        if isinstance(s, (ast.For, ast.While)):
            if has_yield(s):
                after(s.body, [], out)      # the next round takes the next image
                out.extend([])
            continue
        if isinstance(s, ast.If):
            after(s.body, rest, out)
            after(s.orelse, rest, out)
        elif isinstance(s, ast.With):
            after(s.body, rest, out)
        elif isinstance(s, ast.Try):
            after(s.body, s.orelse + s.finalbody + rest, out)
        elif has_yield(s):
            out.extend(rest)


def analyse(prog, rep, tier, seed):
    an = Analysis(prog)
    rep.rules.append("after-yield: no statement between handing out the state and taking the next image writes to the state")
    for nm, par in ROOTS:
        f = prog.func(nm)
        if f is None:
            raise AnalysisBroken("anchor vanished: " + nm)
        rep.count("streaming generators")
        if not has_yield(f.node) or par not in f.params:
            rep.undecided.append("%s: not a generator with a %s argument" % (nm, par))
            continue
        # names that hold the state: assigned from it, or yielded
        names = {par}
        for _ in range(3):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    if n.value.id in names or n.targets[0].id in names:
                        names |= {n.value.id, n.targets[0].id}
        ev = Events(an, f, names)
        ev.par = par
        ev.run()
        out = []
        after(f.node.body, [], out)
        late = {id(x) for s in out for x in ast.walk(s)}
        rep.count("writes to the state", len({id(n) for n, _ in ev.events}))
        rep.count("yields", sum(isinstance(x, ast.Yield) for x in ast.walk(f.node)))
        done = set()
        for n, what in ev.events:
            if id(n) in late and id(n) not in done:
                done.add(id(n))
                rep.findings.append(Finding("after-yield", "%s(%s)" % (nm, what), where(f, n),
                                            "the state %s after it was yielded; a consumer that stops here resumes without this write" % what))
