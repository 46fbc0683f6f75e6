"""tools/mkseed.py FILE.py [ID...]: turn planted-bug definitions into /verif/seeded/<id>/ and confirm each in a scratch
copy of /repo (bind-mounted over /repo in a private mount namespace): builds, stable tests pass, demo fails only with it.

FILE.py defines SEEDS: list of dict(id, property, file, edits=[(old, new), ...], demo (python source), needs, breaks)."""
import json, os, runpy, shutil, subprocess, sys

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

defs = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2:]
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=4
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
for d in defs:
    if only and d["id"] not in only:
        continue
    wt = "/tmp/seedwt"
    shutil.rmtree(wt, ignore_errors=True)
    sh("cp -a /repo %s && git -C %s checkout -q -- . && git -C %s clean -fdq && git -C %s update-ref -d refs/tags/vcheck-pass" % (wt, wt, wt, wt))
    ok = True
    for ed in d["edits"]:
        f, old, new = ed if len(ed) == 3 else (d["file"],) + tuple(ed)
        p = os.path.join(wt, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(d["id"], "edit matches", s.count(old), "times:", old[:60]); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok:
        continue
    out = "/verif/seeded/" + d["id"]
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + "/patch.diff", "w").write(sh("git -C %s diff" % wt).stdout)
    open(out + "/demo.sh", "w").write(d.get("demo_sh", DEMO))
    os.chmod(out + "/demo.sh", 0o755)
    if "demo" in d:
        open(out + "/demo.py", "w").write(d["demo"])
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    base = sh("cd /repo && bash %s/demo.sh" % out)
    r = sh("unshare -m bash -c 'mount --bind %s /repo && bash /opt/vp/build.sh >/tmp/seed.build 2>&1 && bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1; cd /repo && bash %s/demo.sh'" % (wt, out))
    try:
        o = json.load(open("/tmp/seed.json")); os.remove("/tmp/seed.json")
        miss = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o["passed"]))
    except Exception as e:
        miss = ["no test report: %s" % e]
    good = base.returncode == 0 and r.returncode != 0 and not miss
    print("%s %s  demo base rc=%d patched rc=%d missing tests=%s" % ("OK " if good else "BAD", d["id"], base.returncode, r.returncode, miss[:3]))
    if base.returncode:
        print(base.stdout[-500:], base.stderr[-800:])
    if not good:
        print(r.stdout[-300:], r.stderr[-500:])
        shutil.rmtree(out, ignore_errors=True)
    c = sh("SBV_REPO=%s python3-vt /verif/check.py --property %s" % (wt, d["property"]))
    print("    check %s rc=%d %s" % (d["property"], c.returncode, (c.stdout[-600:] if c.returncode != 1 else c.stdout.splitlines()[0][:100])))
    shutil.rmtree(wt, ignore_errors=True)
