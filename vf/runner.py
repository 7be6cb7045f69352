"""Runs one property check: shards generated-input search over processes.

usage:  python -m vf.runner check P01            (tier from VERIF_TIER)
        python -m vf.runner replay P01 FILE
        python -m vf.runner worker P01 SHARD NSHARDS SEED EXAMPLES OUT DEADLINE
"""
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from vf import env
from vf.core import Inconclusive, Outcome, Reject, Violation

VERIF = env.VERIF
NSHARDS = 8


def load(pid):
    return importlib.import_module("props." + pid.lower())


def known_findings(pid):
    fn = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(fn):
        with open(fn) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    e = json.loads(line)
                    if e["property"] == pid and e["status"] == "known":
                        out.append(e)
    return out


def in_repo(exc):
    """True if the exception passed through a frame of the code under test."""
    tb = exc.__traceback__
    src = os.path.realpath(os.path.join(env.REPO, "src"))
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(src):
            return True
        tb = tb.tb_next
    return False


def last_repo_frame(exc):
    tb = exc.__traceback__
    src = os.path.realpath(os.path.join(env.REPO, "src"))
    where = "?"
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(src):
            where = "%s:%s" % (os.path.relpath(fn, src),
                               tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return where


def seed_everything(case):
    import numpy as np
    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).digest()
    np.random.seed(int.from_bytes(h[:4], "big"))


def run_case(mod, case):
    """Outcome / raises Violation, Inconclusive, Reject or a harness error."""
    seed_everything(case)
    try:
        out = mod.check(case)
    except (Violation, Inconclusive, Reject):
        raise
    except Exception as e:
        if in_repo(e):
            raise Violation(
                "unexpected %s raised in %s: %s"
                % (type(e).__name__, last_repo_frame(e), str(e)[:300]),
                key="crash:%s:%s" % (type(e).__name__, last_repo_frame(e)),
            ) from e
        raise
    if out is None:
        out = Outcome()
    return out


def case_hash(case):
    return hashlib.sha256(
        json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def features(case):
    """What a generated model uses (for the aggregate verdict)."""
    if "features" in case:
        return sorted(set(case["features"]))
    out = set()
    sp = case.get("spec") or {}
    for lab, cls, par in sp.get("comps", []):
        for k, v in par.items():
            if isinstance(v, dict):
                k += ":" + next(iter(v), "")
            out.add("%s.%s" % (cls, k))
    for c in sp.get("conns", []):
        for k, v in c[5].items():
            if k.endswith("0"):
                continue
            if isinstance(v, dict) and "ref" in v:
                k += ":ref"
            out.add("conn." + k)
    for b in sp.get("busses", []):
        out.add("bus")
    for u in sp.get("udes", []):
        out.add("ude")
    return sorted(out)


def skeleton(case):
    """Hash of a case with all numbers removed.

    Hypothesis mutates earlier examples, so generated cases come in families
    of near copies; the aggregate verdict counts a family once.
    """
    def strip(x):
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items()
                    if k not in ("truth", "expect", "info")}
        if isinstance(x, list):
            return [strip(v) for v in x]
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return 0
        return x
    return case_hash(strip(case))[:8]


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.inconclusive = 0
        self.inc_cases = []
        self.rejected = 0
        self.known = {}
        self.groups = {}
        self.families = set()

    def group(self, case, bad):
        sk = skeleton(case)
        self.families.add(sk)
        for f in ["tpl:" + str(case.get("tpl", "-"))] + features(case):
            g = self.groups.setdefault(f, {}).setdefault(sk, [0, 0])
            g[0] += 1
            g[1] += bool(bad)

    def dump(self):
        return {
            "evaluations": self.evaluations,
            "nontrivial": sorted(self.nontrivial),
            "labels": self.labels, "samples": self.samples,
            "inconclusive": self.inconclusive, "inc_cases": self.inc_cases,
            "rejected": self.rejected, "known": self.known,
            "groups": self.groups, "families": sorted(self.families),
        }


def worker(pid, shard, nshards, seed, examples, out, deadline):
    env.add_hypothesis_path()
    env.quiet()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import strategies as st
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 30
    # near copies of earlier examples add little here: spend the budget on
    # independent ones
    if hasattr(eng.ConjectureRunner, "generate_mutations_from"):
        eng.ConjectureRunner.generate_mutations_from = lambda self, data: None
    from vf.draw import D

    mod = load(pid)
    env.quiet()
    if hasattr(mod, "setup"):
        mod.setup()
    stats = Stats()
    found = {}
    errors = []
    kf = {e["key"] for e in known_findings(pid)}
    t_end = time.time() + deadline

    def one(case):
        counting = not found
        try:
            o = run_case(mod, case)
        except Violation as v:
            if v.key in kf:
                if counting:
                    stats.evaluations += 1
                    stats.known[v.key] = stats.known.get(v.key, 0) + 1
                return
            found["case"] = case
            found["msg"] = v.msg
            found["key"] = v.key
            raise
        except Inconclusive as e:
            if counting:
                stats.evaluations += 1
                stats.inconclusive += 1
                stats.group(case, True)
                lab = "inconclusive: " + e.label
                stats.labels[lab] = stats.labels.get(lab, 0) + 1
                if len(stats.inc_cases) < 10:
                    stats.inc_cases.append([case, str(e)[:300]])
            return
        except Reject:
            if counting:
                stats.rejected += 1
            hypothesis.reject()
        except Exception:
            if len(errors) < 3:
                errors.append({"case": case, "tb": traceback.format_exc()})
            return
        if counting:
            stats.evaluations += 1
            stats.group(case, False)
            for lab in o.labels:
                stats.labels[lab] = stats.labels.get(lab, 0) + 1
            if o.nontrivial:
                stats.nontrivial.add(case_hash(case))
                if len(stats.samples) < 2:
                    stats.samples.append(case)

    try:
        # regression corpus first (only replayed by shard owners)
        cdir = os.path.join(VERIF, "corpus", pid)
        if os.path.isdir(cdir):
            for i, fn in enumerate(sorted(os.listdir(cdir))):
                if fn.endswith(".json") and i % nshards == shard:
                    with open(os.path.join(cdir, fn)) as f:
                        one(json.load(f)["case"])
        if hasattr(mod, "enumerate_cases"):
            for i, case in enumerate(mod.enumerate_cases()):
                if i % nshards == shard:
                    one(json.loads(json.dumps(case)))

        @settings(max_examples=examples, database=None, deadline=None,
                  phases=[Phase.generate, Phase.shrink],
                  suppress_health_check=list(HealthCheck),
                  report_multiple_bugs=False, print_blob=False)
        @hypothesis.seed((seed * 1000 + shard) * 100 + int(pid[1:]))
        @given(st.data())
        def t(data):
            if time.time() > t_end and not found:
                stats.labels["skipped: deadline"] = \
                    stats.labels.get("skipped: deadline", 0) + 1
                return
            try:
                case = mod.gen(D(data.draw, st))
            except (Reject, ValueError) as e:
                if not isinstance(e, Reject) and in_repo(e):
                    raise
                if not found:
                    stats.rejected += 1
                hypothesis.reject()
            case = json.loads(json.dumps(case))
            one(case)

        if examples > 0:
            t()
    except Violation:
        pass
    except BaseException as e:  # hypothesis Flaky etc.
        if not found:
            errors.append({"case": None, "tb": traceback.format_exc()})
        del e
    res = stats.dump()
    res["errors"] = errors
    if found:
        res["found"] = found
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)


def child_env(scratch):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["HOME"] = scratch
    e["TMPDIR"] = scratch
    e["PYTHONPATH"] = VERIF
    e["MPLBACKEND"] = "Agg"
    return e


def write_replay(pid, case, msg, key):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, "%s-%s.json" % (pid, case_hash(case)))
    with open(fn, "w") as f:
        json.dump({"property": pid, "message": msg, "key": key,
                   "case": case}, f, indent=1)
    return fn


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evf = os.path.join(VERIF, "evidence", pid + ".json")
    if os.path.exists(evf):
        os.remove(evf)
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    meta = json.loads(subprocess.run(
        [sys.executable, "-m", "vf.runner", "meta", pid],
        env=child_env(scratch), cwd=VERIF, capture_output=True, text=True,
        check=True).stdout.splitlines()[-1])
    per_shard = meta["quick"] if tier == "quick" else meta["thorough"]
    deadline = 420 if tier == "quick" else meta["deadline"]
    hard = deadline + 300
    procs = []
    try:
        for i in range(NSHARDS):
            out = os.path.join(scratch, "shard%d.json" % i)
            sd = os.path.join(scratch, "s%d" % i)
            os.makedirs(sd)
            log = open(os.path.join(scratch, "log%d" % i), "w")
            p = subprocess.Popen(
                [sys.executable, "-m", "vf.runner", "worker", pid, str(i),
                 str(NSHARDS), str(seed), str(per_shard), out, str(deadline)],
                env=child_env(sd), cwd=sd, stdout=log,
                stderr=subprocess.STDOUT)
            procs.append((p, out, log))
        results = {}
        while len(results) < NSHARDS:
            for i, (p, out, log) in enumerate(procs):
                if i in results or p.poll() is None:
                    continue
                if os.path.exists(out):
                    with open(out) as f:
                        results[i] = json.load(f)
                else:
                    with open(log.name) as f:
                        tail = f.read()[-3000:]
                    results[i] = {"died": p.returncode, "log": tail}
            if any("found" in r for r in results.values()):
                break
            if time.time() - t0 > hard:
                break
            time.sleep(0.1)
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        rc = report(pid, tier, seed, meta, results, t0)
    finally:
        for p, _, log in procs:
            if p.poll() is None:
                p.kill()
            log.close()
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def report(pid, tier, seed, meta, results, t0):
    ev = 0
    nt = set()
    labels = {}
    samples = []
    inc = 0
    inc_cases = []
    rej = 0
    known = {}
    groups = {}
    families = set()
    found = None
    errors = []
    for i in sorted(results):
        r = results[i]
        if "died" in r:
            errors.append("shard %d died rc=%s: %s" % (i, r["died"], r["log"]))
            continue
        ev += r["evaluations"]
        nt.update(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += r["samples"]
        families.update(r["families"])
        inc += r["inconclusive"]
        inc_cases += r["inc_cases"]
        rej += r["rejected"]
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        for k, v in r["groups"].items():
            for sk, (a, b) in v.items():
                g = groups.setdefault(k, {}).setdefault(sk, [0, 0])
                g[0] += a
                g[1] += b
        for e in r["errors"]:
            errors.append("harness error: %s\ncase: %s"
                          % (e["tb"], json.dumps(e["case"])[:2000]))
        if "found" in r and found is None:
            found = r["found"]
    if len(results) < NSHARDS and found is None:
        errors.append("not all shards finished")

    # families of cases -> [number of families, weight that failed]
    groups = {k: [len(v), round(sum(b / a for a, b in v.values()), 2)]
              for k, v in groups.items()}
    # non-convergence as an aggregate verdict
    if found is None and not errors:
        for g, (n, bad) in sorted(groups.items()):
            tpl = g.startswith("tpl:")
            lim = meta["max_inconclusive"] if tpl else 0.6
            if n >= (15 if tpl else 12) and bad >= 5 and bad / n > lim:
                sel = [(c, m) for c, m in inc_cases
                       if g in ["tpl:" + str(c.get("tpl", "-"))] + features(c)]
                found = {
                    "case": {"aggregate": [c for c, _ in sel], "tpl": g},
                    "msg": "%.1f of %d families of generated cases with '%s' "
                           "could not be computed (limit %.0f %%), e.g. %s"
                           % (bad, n, g, 100 * lim, [m for _, m in sel][:1]),
                    "key": "aggregate:" + g}
                break

    kf = known_findings(pid)
    samples = samples[:4]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(nt),
            "rule": meta["rule"], "samples": samples,
            "distinct_structures": len(families),
            "inconclusive": inc, "rejected_by_generator": rej,
            "labels": dict(sorted(labels.items())),
            "groups": {k: v for k, v in sorted(groups.items())
                       if k.startswith("tpl:") or v[1]},
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": meta["assumptions"],
        "violations": 1 if found else 0,
    }
    rc = 0
    if found:
        rp = write_replay(pid, found["case"], found["msg"], found["key"])
        evidence["violation"] = {"message": found["msg"], "replay": rp}
        print("property %s violated: %s" % (pid, found["msg"]))
        print("case: %s" % json.dumps(found["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    elif errors:
        for e in errors[:3]:
            print(e, file=sys.stderr)
        rc = 2
    elif ev == 0 or len(nt) == 0:
        print("no non-trivial case was generated", file=sys.stderr)
        rc = 2
    for e in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d inconclusive,"
          " %.1f s -> exit %d" % (pid, tier, seed, ev, len(nt), inc,
                                  time.time() - t0, rc))
    return rc


def replay(pid, fn):
    env.quiet()
    mod = load(pid)
    env.quiet()
    if hasattr(mod, "setup"):
        mod.setup()
    with open(fn) as f:
        data = json.load(f)
    cases = data["case"].get("aggregate") or [data["case"]]
    rc = 0
    cwd = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="vf_replay_")
    os.environ["TMPDIR"] = os.environ["HOME"] = scratch
    tempfile.tempdir = None
    os.chdir(scratch)
    try:
        for case in cases:
            try:
                o = run_case(mod, case)
                print("holds", o.labels)
            except Violation as v:
                print("violated:", v.msg)
                if "-v" in sys.argv:
                    traceback.print_exc()
                rc = 1
            except Inconclusive as e:
                print("inconclusive:", e)
                rc = max(rc, 1 if "aggregate" in data["case"] else 0)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def meta(pid):
    mod = load(pid)
    print(json.dumps({
        "quick": mod.QUICK, "thorough": mod.THOROUGH,
        "deadline": getattr(mod, "DEADLINE", 3000),
        "rule": mod.RULE,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "max_inconclusive": getattr(mod, "MAX_INCONCLUSIVE", 0.3),
    }))


def main():
    cmd, pid = sys.argv[1], sys.argv[2]
    if cmd == "check":
        sys.exit(check(pid))
    elif cmd == "replay":
        sys.exit(replay(pid, sys.argv[3]))
    elif cmd == "meta":
        meta(pid)
    elif cmd == "worker":
        a = sys.argv[3:]
        worker(pid, int(a[0]), int(a[1]), int(a[2]), int(a[3]), a[4],
               float(a[5]))


if __name__ == "__main__":
    main()
