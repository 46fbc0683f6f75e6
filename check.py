#!/usr/bin/env python3
"""Entry point of every check:  python3-vt check.py --property Cxx [--tier quick|thorough]

exit 0  the property held on everything analysed (known findings are listed)
exit 1  'VIOLATION property=<id> replay=<path>': a construct breaks it
exit 2  the analysis itself is broken (an anchor vanished, a file cannot be parsed)
"""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)
sys.dont_write_bytecode = True


def main():
    import threading

    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--selftest", action="store_true", help="parse the requirement modules and the repository; no build is needed")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=("quick", "thorough"))
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    rc = [2]
    if a.selftest:
        from sbv import oblige, props, registry  # noqa: F401
        from sbv.front import Program
        p = Program()
        n = sum(len(oblige.load_specs(p, m.partition(":")[0])) for specs, _, _ in props.REG.values() for m in specs)
        print("requirements parsed: %d" % n)
        return

    def go():
        rc[0] = run(a)

    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    from sbv import props

    while t.is_alive():
        t.join(0.5)
        props.watch(a.tier)
    sys.stdout.flush()
    os._exit(rc[0])


def run(a):
    from sbv import props
    from sbv.front import AnalysisBroken, Program

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a.property
    try:
        prog = Program()
        rep = props.run(prog, pid, a.tier, seed, verbose=a.verbose)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    known = load_known(pid)
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    new, seen = [], []
    for f in rep.findings:
        k = [x for x in known if x["key"] == f.key]
        (seen if k else new).append(f)
    for f in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, f.key))
    vf = os.path.join(ev, pid + ".violation.txt")
    if os.path.exists(vf):
        os.remove(vf)
    if new:
        with open(vf, "w") as fh:
            for f in new:
                fh.write(f.text() + "\n\n")
    out = {
        "property": pid,
        "tier": a.tier,
        "seed": seed,
        "level": "other",
        "coverage": rep.coverage(),
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(ev, pid + ".json"), "w") as fh:
        json.dump(out, fh, indent=1, sort_keys=True)
        fh.write("\n")
    c = out["coverage"]
    print("property %s: %s" % (pid, ", ".join("%s %s" % (v, k) for k, v in sorted(c.items()) if isinstance(v, int))))
    for u in c.get("undecided", [])[:20]:
        print("  undecided: " + u)
    if new:
        for f in new[:12]:
            print(f.text())
        print("VIOLATION property=%s replay=%s" % (pid, vf))
        return 1
    return 0


def load_known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=" + pid + " "):
                out.append({"key": line[len("finding: property=" + pid + " "):].split(" :: ")[0].strip()})
    return out


main()
