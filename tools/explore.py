"""Development aid: distinct violations of one property over many seeds.

usage: python tools/explore.py P06 0-300
"""
import json
import os
import sys
import tempfile
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import env  # noqa: E402


def run(args):
    pid, seed = args
    env.quiet()
    from vf import runner
    from vf.core import Inconclusive, Reject, Violation
    from vf.draw import R
    mod = runner.load(pid)
    env.quiet()
    try:
        case = json.loads(json.dumps(mod.gen(R(seed))))
    except (Reject, ValueError) as e:
        return seed, "reject", type(e).__name__, None
    try:
        o = runner.run_case(mod, case)
        return seed, "ok" if o.nontrivial else "trivial", "", None
    except Violation as v:
        return seed, "VIOL " + v.key, v.msg, case
    except Inconclusive as e:
        return seed, "inc " + e.label, str(e), case
    except Exception as e:
        import traceback
        return seed, "ERR " + type(e).__name__, traceback.format_exc(), case


def main():
    pid, rng = sys.argv[1:3]
    a, b = map(int, rng.split("-"))
    d = tempfile.mkdtemp()
    os.chdir(d)
    res = {}
    with ProcessPoolExecutor(8) as ex:
        for s, k, m, c in ex.map(run, [(pid, i) for i in range(a, b)],
                                 chunksize=4):
            res.setdefault(k, []).append((s, m, c))
    for k, v in sorted(res.items()):
        print("%4d %s" % (len(v), k[:160]))
        if k.startswith(("VIOL", "ERR")):
            s, m, c = min(v, key=lambda t: len(json.dumps(t[2])))
            print("      seed %d: %s" % (s, m[-900:]))
            fn = "/tmp/ex_%s_%d.json" % (pid, s)
            json.dump({"case": c}, open(fn, "w"))
            print("      ", fn)


if __name__ == "__main__":
    main()
