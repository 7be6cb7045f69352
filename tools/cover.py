"""Frequency of features over generated models (dev aid): cover.py N [regex]"""
import sys, os, re, json, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import env
env.add_hypothesis_path(); env.quiet()
from vf import zoo, runner
from vf.draw import R
from vf.core import Reject
C = collections.Counter()
n = int(sys.argv[1]); pat = re.compile(sys.argv[2] if len(sys.argv) > 2 else ".")
k = 0
for s in range(n):
    try:
        c = zoo.draw(R(s), zoo.ALL).case()
    except (Reject, ValueError):
        C["reject"] += 1
        continue
    k += 1
    for f in runner.features(c) + ["tpl:" + c["tpl"]]:
        C[f] += 1
print(k, "models of", n)
print("  ".join("%s %.2f%%" % (f, 100 * v / k) for f, v in sorted(C.items()) if pat.search(f)))
