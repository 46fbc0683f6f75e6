"""tools/spec_try.py SPEC [NAME...]: compare the requirements of one spec module, verbosely"""
import sys, time, threading
sys.path.insert(0, '/verif'); sys.setrecursionlimit(200000)
from sbv.front import Program
from sbv import oblige, terms as tm
def main():
    p = Program()
    for o in oblige.load_specs(p, sys.argv[1]):
        if sys.argv[2:] and o.name not in sys.argv[2:]:
            continue
        t = time.time()
        rs, b = oblige.check(p, o)
        print(o.name, round(time.time() - t, 2), sorted(set(b.notes))[:5] if b else "")
        for r in rs:
            print("   ", r.observable, r.verdict, r.diff.text() if r.diff else "")
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main); t.start(); t.join()
