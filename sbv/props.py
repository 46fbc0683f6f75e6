"""What decides each property: requirement modules (specs/) and analyses."""
from __future__ import annotations

import os
import time

from . import oblige, rint
from . import terms as tm


class OutOfTime(BaseException):
    """Raised in the analysis thread by the watchdog (check.py)."""


# what the watchdog looks at: start of the run, and of the current step
CLOCK = {"run": None, "step": None, "thread": None}
STEP_S, RUN_S = {"quick": 450, "thorough": 500}, {"quick": 750, "thorough": 800}


def watch(tier):
    """Called by the main thread now and then; interrupts a step that takes
    too long, so that the check answers in time (the step is undecided)."""
    import ctypes

    if CLOCK["step"] is None:
        return
    now = time.time()
    if now - CLOCK["step"] > STEP_S[tier] or now - CLOCK["run"] > RUN_S[tier]:
        CLOCK["step"] = None
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(CLOCK["thread"]), ctypes.py_object(OutOfTime))


def guarded(f, tier):
    """f(), or the reason why it gave no answer"""
    import threading

    from .front import AnalysisBroken

    if CLOCK["run"] is None:
        CLOCK["run"] = time.time()
    if time.time() - CLOCK["run"] > RUN_S[tier]:
        return None, "no time left"
    try:
        try:
            CLOCK["thread"] = threading.get_ident()
            CLOCK["step"] = time.time()
            return f(), None
        finally:
            CLOCK["step"] = None
    except AnalysisBroken:
        raise
    except OutOfTime:
        return None, "out of time"
    except (Exception, RecursionError) as e:
        import traceback

        tb = traceback.extract_tb(e.__traceback__)[-1]
        return None, "analysis error %s: %s (%s:%d)" % (type(e).__name__, str(e)[:120], os.path.basename(tb.filename), tb.lineno)


class Finding:
    def __init__(self, rule, construct, where, message, detail=""):
        self.rule = rule
        self.construct = construct
        self.where = where
        self.message = message
        self.detail = detail

    @property
    def key(self):
        return "%s %s" % (self.rule, self.construct)

    def text(self):
        s = "%s: [%s] %s: %s" % (self.where, self.rule, self.construct, self.message)
        if self.detail:
            s += "\n    " + self.detail.replace("\n", "\n    ")
        return s


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.findings = []
        self.counts = {}
        self.undecided = []
        self.samples = []
        self.rules = []
        self.assumptions = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def coverage(self):
        c = dict(self.counts)
        c["explanation"] = " | ".join(self.rules)
        c["undecided"] = self.undecided[:60]
        c["samples"] = self.samples[:25]
        return c




def _one(prog, o, seed, samples):
    t = time.time()
    rs, b = oblige.check(prog, o, samples=samples, seed=seed)
    fns = sorted(b.visited_funcs) if b is not None and hasattr(b, "visited_funcs") else []
    notes = sorted(set(b.notes))[:10] if b is not None and hasattr(b, "notes") else []
    return [(r.observable, r.verdict, r.diff.text() if r.diff else "", r.where) for r in rs], fns, notes, time.time() - t


def run_specs(prog, rep, mods, tier, seed, verbose=False, workers=0):
    samples = 60 if tier == "quick" else 400
    obls = []
    for m in mods:
        # module:function takes one requirement of another property along: it
        # is what this property's own requirements take for granted
        m, _, only = m.partition(":")
        obls += [o for o in oblige.load_specs(prog, m) if not only or o.target and o.target.split(":")[1] == only]
    rep.rules.append(
        "each public entry point (or short driver over the public API) listed in specs/%s is reduced, with every "
        "repository callee inlined, to a gated-SSA value graph of its result, raised exceptions, yielded values and "
        "writes to caller-visible objects, and must be value-equivalent to the written requirement; equality is decided "
        "by normal-form hash-consing and random interpretation of the graphs, a difference is reported only when it is "
        "localised to a construct" % ", specs/".join(m.replace(":", ".py:") if ":" in m else m + ".py" for m in mods))
    fns = set()
    for o in obls:
        got, why = guarded(lambda: _one(prog, o, seed, samples), tier)
        if got is None:
            rep.count("requirements")
            rep.count("obligations")
            rep.undecided.append("%s: %s" % (o.target or ("driver " + o.name), why))
            if verbose:
                print("        %s %s" % (o.name, why))
            continue
        res, fs, notes, dt = got
        fns |= set(fs)
        rep.count("requirements")
        if verbose:
            print("%6.2fs %s" % (dt, o.name))
        for obsv, verdict, txt, where in res:
            rep.count("obligations")
            if verbose:
                print("        %-30s %s %s" % (obsv, verdict, "" if verdict == rint.EQUAL else txt))
            nm = o.target or ("driver " + o.name)
            if verdict == rint.EQUAL:
                rep.count("discharged")
                if len(rep.samples) < 12:
                    rep.samples.append("%s: %s equals the requirement %s" % (where, obsv, o.name))
            elif verdict == rint.DIFFERENT:
                rep.findings.append(Finding("requirement", nm + " / " + obsv, where,
                                            "differs from the requirement", txt))
            elif txt.startswith("equal on every bounded unrolling"):
                rep.count("discharged_bounded")
                if len(rep.samples) < 20:
                    rep.samples.append("%s: %s equals the requirement %s on every interpretation with loops of up to 10 iterations" % (
                        where, obsv, o.name))
            else:
                rep.undecided.append("%s %s: %s" % (nm, obsv, txt[:300]))
        if verbose and notes:
            print("        notes:", notes)
    rep.counts["functions_analysed"] = len(fns)


REG = {}


def prop(pid, specs=(), analyses=(), assumptions=()):
    REG[pid] = (tuple(specs), tuple(analyses), tuple(assumptions))


def run(prog, pid, tier, seed, verbose=False):
    from . import registry  # noqa: F401  (fills REG)

    specs, analyses, assumptions = REG[pid]
    rep = Report(pid)
    rep.assumptions = list(assumptions)
    if specs:
        run_specs(prog, rep, specs, tier, seed, verbose)
        if not rep.counts.get("obligations"):
            from .front import AnalysisBroken
            raise AnalysisBroken("no obligations")
    for a in analyses:
        _, why = guarded(lambda: a(prog, rep, tier, seed), tier)
        if why:
            rep.undecided.append("%s: %s" % (getattr(a, "__name__", "analysis"), why))
    return rep
