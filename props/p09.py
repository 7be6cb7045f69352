"""The result of a simulation does not depend on the network's history."""
import contextlib
import copy
import io
import json
import math
import os
import shutil
import tempfile

import numpy as np

from tespy.connections import Connection
from vf import judge, spec, zoo
from vf.core import Inconclusive, Outcome, Reject, Violation
from vf.draw import R
from vf.meta_rel import agree, compare_states, solve_polished
from props.p10 import swaps

QUICK = 60
THOROUGH = 1500
RULE = ("at least one other specification, failed attempt, partial solve or "
        "change of the topology preceded the final specification, and both "
        "the used and the fresh network converged")
MAX_INCONCLUSIVE = 0.5


def strip(f):
    return f.split("::")[-1]


NUM = (int, float)
FLUIDS = {strip(f) for l in (zoo.GASES, zoo.MIXES, zoo.HUMID, zoo.TWOPHASE,
                             zoo.INCOMP) for x in l for f in x} | {
    "H2O", "water", "C2H6", "C3H8", "H2", "O2", "CO2"}


def topology(sp):
    return json.dumps([[c[:2] for c in sp["comps"]],
                       [c[:5] for c in sp["conns"]],
                       sorted((c[0], bool(c[5].get("fluid_balance")))
                              for c in sp["conns"])])


def fluid_spots(sp):
    return sorted(c[0] for c in sp["conns"] if c[5].get("fluid"))


def twin(mo, seed):
    """Another drawn model of the same topology (other fluids, states and
    specifications)."""
    want, spots = topology(mo.case()["spec"]), fluid_spots(mo.case()["spec"])
    r = R(seed)
    for _ in range(25):
        try:
            b = zoo.TEMPLATES[mo.base](r)
        except (Reject, ValueError):
            continue
        c = b.case()
        if topology(c["spec"]) == want and fluid_spots(c["spec"]) == spots \
                and "udes" not in c["spec"] and "busses" not in c["spec"]:
            return c
    return None


def gen(d):
    mo = zoo.draw(d, zoo.ALL)
    case = mo.case()
    case["features"] = []
    sp = case["spec"]
    ops = []
    for _ in range(d.int(1, 4)):
        k = d.choice(["perturb", "perturb", "swap", "twin", "twin", "bad",
                      "few", "absurd", "reconnect", "insert", "look",
                      "start", "initonly", "offdesign", "again", "design"])
        op = {"op": k}
        if k == "perturb":
            op["what"] = [d.int(0, 30), d.choice([0.93, 1.04, 1.15, 0.8])]
            op["max_iter"] = d.choice([50, 50, 50, 2, 5])
        elif k == "swap":
            sw = swaps(sp)
            if not sw:
                continue
            op["what"] = d.choice(sw)
        elif k == "twin":
            t = twin(mo, d.int(0, 10 ** 6))
            if t is None:
                continue
            op["spec"], op["truth"] = t["spec"], t["truth"]
            op["max_iter"] = d.choice([50, 50, 3])
        elif k in ("bad", "absurd", "reconnect", "insert"):
            op["what"] = d.int(0, 30)
            if k == "absurd":
                op["v"] = d.choice([["T", 9999.0], ["p", 1e10], ["h", 1e9],
                                    ["m", -1e6]])
        elif k == "few":
            op["max_iter"] = d.int(1, 4)
        elif k == "start":
            op["v"] = [d.float(0.1, 10, 30), d.log(1e4, 1e7, 40),
                       d.float(1e5, 3e6, 40)]
        elif k == "look":
            op["what"] = d.int(0, 3)
        ops.append(op)
    if not ops:
        raise Reject
    case["ops"] = ops
    return case


# ------------------------------------------------------- live transition --
def clear_value(v):
    return None


def move(net, a, b):
    """Change the specification of a living network from spec a to b."""
    pa = {c[0]: c[2] for c in a["comps"]}
    for lab, cls, par in b["comps"]:
        old = pa[lab]
        gone = [k for k in old if k not in par]
        k = net.comps[lab]
        for g in gone:
            v = old[g]
            if isinstance(v, dict) and ("char" in v or "map" in v):
                k.get_attr(g).is_set = False
            elif isinstance(v, bool):
                k.set_attr(**{g: False})
            elif isinstance(v, NUM) or v == "var" or isinstance(v, dict):
                k.set_attr(**{g: None})
        new = {q: v for q, v in par.items() if old.get(q) != v}
        if new:
            spec.apply_comp(net, lab, new)
    pa = {c[0]: c[5] for c in a["conns"]}
    for lab, _, _, _, _, par in b["conns"]:
        old, k = pa[lab], net.conns[lab]
        kw = {}
        for q, v in old.items():
            if q in par and type(v) is type(par[q]):
                continue
            if q in ("m", "p", "h", "T", "x", "v", "Td_bp", "state"):
                kw[q] = None
            elif q == "fluid_balance":
                kw[q] = False
        if kw:
            k.set_attr(**kw)
    for lab, _, _, _, _, par in b["conns"]:
        old = pa[lab]
        new = {q: v for q, v in par.items()
               if old.get(q) != v and q != "fluid"}
        if new:
            spec.apply_conn(net, lab, new)
        fa, fb = old.get("fluid") or {}, par.get("fluid") or {}
        if fa != fb:
            full = sum(fb.values()) > 1 - 1e-5
            fl = {strip(f): 0 if full else None for f in fa if strip(f) not in
                  {strip(g) for g in fb}}
            fl.update(fb)
            net.conns[lab].set_attr(fluid=fl)


def begin(net, truth):
    """starting values, as a user working in steps would provide them"""
    for lab, (m, p, h) in truth.items():
        if lab in net.conns:
            net.conns[lab].set_attr(m0=m, p0=p, h0=h)


def attempt(net, **kw):
    """solve, whatever comes out"""
    try:
        net.nw.solve("design", **kw)
    except Exception:
        pass


def perturbed(sp, i, f):
    sp = copy.deepcopy(sp)
    spots = []
    for c in sp["conns"]:
        for q in ("m", "p", "v", "T"):
            if isinstance(c[5].get(q), NUM):
                spots.append((c[5], q))
    for lab, cls, par in sp["comps"]:
        for q in ("pr", "pr1", "pr2", "eta_s", "Q", "P", "kA", "ttd_u",
                  "ttd_l", "zeta", "zeta1", "zeta2", "dp1", "dp2"):
            if isinstance(par.get(q), NUM):
                spots.append((par, q))
    if not spots:
        return sp
    par, q = spots[i % len(spots)]
    if q == "T":
        f = 1 + 0.1 * (f - 1)
    if q in ("pr", "pr1", "pr2", "eta_s"):
        f = min(f, 0.99 / par[q]) if par[q] < 1 else f
    par[q] = zoo.clean(par[q] * f)
    return sp


def do(net, case, op, cur, path):
    """One step of the history; returns the specification now applied."""
    sp, k = case["spec"], op["op"]
    if k == "perturb":
        s2 = perturbed(sp, *op["what"])
        move(net, cur, s2)
        attempt(net, max_iter=op["max_iter"])
        return s2
    if k == "swap":
        typ, lab, old, new = op["what"]
        s2 = copy.deepcopy(sp)
        attempt(net)
        if not net.nw.converged:
            return cur
        if typ == "conn":
            par = next(c for c in s2["conns"] if c[0] == lab)[5]
            v = float(net.conns[lab].get_attr(new).val_SI)
        else:
            par = next(c for c in s2["comps"] if c[0] == lab)[2]
            v = float(net.comps[lab].get_attr(new).val)
        if v != v or typ in ("hydro", "thermal"):
            return cur
        par.pop(old, None)
        par[new] = v
        move(net, cur, s2)
        attempt(net)
        return s2
    if k == "twin":
        move(net, cur, op["spec"])
        begin(net, op["truth"])
        attempt(net, max_iter=op["max_iter"])
        return op["spec"]
    if k == "few":
        attempt(net, max_iter=op["max_iter"])
    elif k == "again":
        attempt(net)
    elif k == "initonly":
        attempt(net, init_only=True)
    elif k == "start":
        m, p, h = op["v"]
        for c in net.conns.values():
            c.set_attr(m0=m, p0=p, h0=h)
        attempt(net, max_iter=2)
    elif k == "bad":
        lab = sp["conns"][op["what"] % len(sp["conns"])][0]
        par = next(c for c in cur["conns"] if c[0] == lab)[5]
        free = [q for q in ("m", "p", "h", "T") if q not in par]
        for q in free:
            net.conns[lab].set_attr(**{q: {"m": 1.0, "p": 2e5, "h": 5e5,
                                           "T": 350.0}[q]})
        attempt(net)
        for q in free:
            net.conns[lab].set_attr(**{q: None})
    elif k == "absurd":
        q, v = op["v"]
        cs = [c for c in cur["conns"] if isinstance(c[5].get(q), NUM)]
        if cs:
            c = cs[op["what"] % len(cs)]
            net.conns[c[0]].set_attr(**{q: v})
            attempt(net)
            spec.apply_conn(net, c[0], {q: c[5][q]})
    elif k == "look":
        attempt(net)
        if net.nw.converged:
            look(net, op["what"], path)
    elif k == "reconnect":
        c = net.conns[sp["conns"][op["what"] % len(sp["conns"])][0]]
        net.nw.del_conns(c)
        net.nw.add_conns(c)
    elif k == "insert":
        cs = [c for c in sp["conns"]
              if next(q for q in sp["comps"] if q[0] == c[3])[1] == "Sink"]
        if not cs:
            return cur
        c = cs[op["what"] % len(cs)]
        old = net.conns[c[0]]
        v = spec.C.Valve("inserted valve", pr=0.98)
        s = spec.C.Sink("inserted sink")
        net.nw.del_conns(old)
        a = Connection(old.source, old.source_id, v, "in1", label="ins a")
        b = Connection(v, "out1", s, "in1", label="ins b")
        net.nw.add_conns(a, b)
        par = {q: x for q, x in next(
            y for y in cur["conns"] if y[0] == c[0])[5].items()
            if not (isinstance(x, dict) and "ref" in x)}
        a.set_attr(**{q: spec.conn_value(net, q, x)
                      for q, x in par.items()})
        attempt(net)
        net.nw.del_conns(a, b)
        net.nw.add_conns(old)
    elif k == "offdesign":
        attempt(net)
        if net.nw.converged:
            q = os.path.join(path, "od")
            net.nw.save(q)
            try:
                net.nw.solve("offdesign", design_path=q)
            except Exception:
                pass
    elif k == "design":
        # parameters marked for the off-design case, used once
        attempt(net)
        if not net.nw.converged:
            return cur
        q = os.path.join(path, "dd")
        net.nw.save(q)
        lists = []
        for lab, cls, par in cur["comps"]:
            for x, y in (("pr", "zeta"), ("pr1", "zeta1"), ("ttd_u", "kA"),
                         ("pr2", "zeta2"), ("eta_s", "P")):
                z = net.comps[lab]
                if isinstance(par.get(x), NUM) and y in z.parameters \
                        and y not in par:
                    z.set_attr(design=[x], offdesign=[y])
                    lists.append(z)
        try:
            net.nw.solve("offdesign", design_path=q)
        except Exception:
            pass
        for z in lists:
            # design mode restores what belongs to it, then forget the lists
            pass
        attempt(net)
        for z in lists:
            z.set_attr(design=[], offdesign=[])
    return cur


def look(net, which, path):
    nw = net.nw
    with contextlib.redirect_stdout(io.StringIO()):
        if which == 0:
            nw.print_results()
        elif which == 1:
            nw.save(os.path.join(path, "look"))
        elif which == 2:
            nw.export(os.path.join(path, "export"))
        else:
            for c in net.conns.values():
                c.get_physical_exergy(1e5, 298.15)
            for k in net.comps.values():
                k.get_plotting_data()


def check(case):
    sp = case["spec"]
    np.random.seed(1)
    fresh = spec.build(sp)
    solve_polished(fresh)
    path = tempfile.mkdtemp(prefix="hist")
    try:
        np.random.seed(2)
        net = spec.build(sp)
        cur = sp
        hist = []
        for op in case["ops"]:
            cur = do(net, case, op, cur, path)
            hist.append(op["op"])
        move(net, cur, sp)
        begin(net, case["truth"])
    finally:
        shutil.rmtree(path, ignore_errors=True)
    # a user facing a failed iteration starts it again
    for c in net.conns.values():
        c.good_starting_values = False
    try:
        solve_polished(net)
    except Inconclusive as e:
        raise Inconclusive("%s after %s" % (e, hist), "after history")
    # several solutions: that of the used network must satisfy a fresh one
    agree(net, fresh, sp, "after %s" % hist, rel=5e-5, h_abs=20.0, x_abs=1e-5)
    tables(fresh, net, hist)
    return Outcome(True, labels=["op:" + h for h in hist])


def tables(a, b, hist):
    """All reported values, including which of them are not available."""
    try:
        compare_states(a, b, "", rel=5e-5, h_abs=20.0, x_abs=1e-5)
    except Violation:
        return
    for key, ta in a.nw.results.items():
        tb = b.nw.results.get(key)
        if tb is None:
            raise Violation("result table %s missing after %s" % (key, hist),
                            key="table")
        if set(ta.index) != set(tb.index) or \
                set(ta.columns) - set(tb.columns):
            raise Violation(
                "result table %s has rows %s and columns %s, in the fresh "
                "network %s and %s, after %s" % (
                    key, sorted(tb.index), sorted(map(str, tb.columns)),
                    sorted(ta.index), sorted(map(str, ta.columns)), hist),
                key="table:%s" % key)
        for row in ta.index:
            for col in ta.columns:
                va, vb = ta.loc[row, col], tb.loc[row, col]
                if str(col) in FLUIDS and va != va and vb == 0:
                    continue
                if not same(va, vb, str(col)):
                    raise Violation(
                        "%s of %s (%s) is %s, but %s in a fresh network, "
                        "after %s" % (col, row, key, vb, va, hist),
                        key="result:%s:%s" % (key, col))


def same(a, b, col):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return True
    tol = 1e-3 * max(abs(a), abs(b)) + 1e-4
    if col.startswith(("zeta", "kA", "eta_s", "eff", "td_log", "UA", "Td_bp",
                       "ttd", "dp", "td_pinch")):
        tol = 1e-2 * max(abs(a), abs(b)) + 1e-2
    return abs(a - b) <= tol
