"""Well-posed models are accepted, ill-posed ones are rejected."""
import copy
import re

from tespy.connections import Connection
from tespy.tools.helpers import TESPyNetworkError
from vf import judge, spec, zoo
from vf.core import Outcome, Reject, Violation
from vf.meta_rel import agree, solve_polished

QUICK = 110
THOROUGH = 2500
RULE = ("one structural defect was introduced in an otherwise solvable model "
        "and the reaction of the network was observed, followed by the "
        "repair of the same network object where the defect is a missing or "
        "surplus value")

CONN = ("m", "p", "h", "T", "x", "v", "Td_bp")
SINGLE = {"pr", "pr1", "pr2", "pr3", "zeta", "zeta1", "zeta2", "zeta3", "dp1",
          "dp2", "eta_s", "P", "Q", "ttd_u", "ttd_l", "ttd_min", "eff_hot",
          "eff_cold", "eff_max", "td_pinch", "UA", "lamb", "ti", "eta", "e",
          "Q1", "Q2", "Q_loss", "A"}


def candidates(sp):
    out = []
    for lab, cls, par in sp["comps"]:
        var = any(v == "var" or isinstance(v, dict) for v in par.values())
        for k, v in par.items():
            if k == "kA" and "Tamb" not in par:
                pass
            elif k not in SINGLE:
                continue
            if not isinstance(v, (int, float)) or var:
                continue
            if cls == "SolarCollector" and k == "A" or \
                    k == "A" and cls == "ParabolicTrough" or k != "A":
                out.append(["comp", lab, k])
    for c in sp["conns"]:
        for k in CONN:
            if k in c[5] and c[5][k] is not None:
                out.append(["conn", c[0], k])
    return out


def additions(mo, sp):
    out = []
    for c in sp["conns"]:
        st = mo.truth[c[0]]
        for k in ("m", "p", "h", "T"):
            if k in c[5]:
                continue
            if k == "T":
                if not st.fl.pure or zoo.phase(st) in ("tp", "sc") \
                        or zoo.near_sat(st):
                    continue
            out.append([c[0], k, zoo.clean(getattr(st, k))])
    return out


def gen(d):
    mo = zoo.draw(d, zoo.ALL)
    if d.bool(30):
        mo.starting_values(d)
    case = mo.case()
    sp = case["spec"]
    kind = d.choice(["remove", "remove", "remove2", "add", "add", "add2",
                     "fluid", "drop", "dup_out", "dup_in", "closer", "label",
                     "none"])
    mut = {"kind": kind}
    if kind in ("remove", "remove2"):
        c = candidates(sp)
        n = 1 if kind == "remove" else 2
        if len(c) < n:
            raise Reject
        mut["what"] = d.subset(c, n, n)
    elif kind in ("add", "add2"):
        c = additions(mo, sp)
        n = 1 if kind == "add" else 2
        if len(c) < n:
            raise Reject
        mut["what"] = d.subset(c, n, n)
    elif kind in ("drop", "dup_out", "dup_in"):
        mut["what"] = d.int(0, len(sp["conns"]) - 1)
    elif kind == "closer":
        cc = [k[0] for k in sp["comps"] if k[1] == "CycleCloser"]
        if not cc:
            raise Reject
        mut["what"] = d.choice(cc)
    elif kind == "fluid":
        mut["what"] = d.int(0, len(sp["conns"]) - 1)
    elif kind == "label":
        mut["what"] = [d.choice(["comp", "conn"]),
                       d.int(0, len(sp["conns"]) - 1)]
    case["mut"] = mut
    case["features"] = []
    return case


def counts(e):
    m = re.search(r"(\d+)\s+required,\s+(\d+)\s+supplied", str(e))
    return (int(m.group(1)), int(m.group(2))) if m else None


def reject(net, what, diff=None):
    """solve must raise TESPyNetworkError"""
    try:
        net.nw.solve("design")
    except TESPyNetworkError as e:
        n = counts(e)
        if diff is not None and n is not None and n[1] - n[0] != diff:
            raise Violation(
                "%s: the network reports %d required and %d supplied "
                "parameters, the difference must be %d" % (what, *n, diff),
                key="count:" + what.split()[0])
        return
    except Exception as e:
        raise Violation("%s: expected a TESPyNetworkError, got %s: %s"
                        % (what, type(e).__name__, str(e)[:200]),
                        key="wrong error:" + what.split()[0])
    raise Violation("%s: the model was accepted and solved (converged: %s)"
                    % (what, net.nw.converged),
                    key="accepted:" + what.split()[0])


def check(case):
    sp = case["spec"]
    mut = case["mut"]
    kind = mut["kind"]
    ref = spec.build(sp)
    solve_polished(ref)     # a well-posed model is accepted
    if kind == "none":
        return Outcome(True, labels=[kind])
    w = mut["what"]
    if kind in ("remove", "remove2"):
        net = spec.build(sp)
        back = []
        for typ, lab, k in w:
            if typ == "conn":
                net.conns[lab].set_attr(**{k: None})
                back.append((spec.apply_conn, lab,
                             {k: [c for c in sp["conns"]
                                  if c[0] == lab][0][5][k]}))
            else:
                net.comps[lab].set_attr(**{k: None})
                back.append((spec.apply_comp, lab,
                             {k: [c for c in sp["comps"]
                                  if c[0] == lab][0][2][k]}))
        reject(net, "missing %s" % w, -len(w))
        for f, lab, par in back:
            f(net, lab, par)
        solve_polished(net)
        agree(ref, net, sp, "completed after rejection %s" % w)
    elif kind in ("add", "add2"):
        net = spec.build(sp)
        for lab, k, v in w:
            spec.apply_conn(net, lab, {k: v})
        reject(net, "surplus %s" % w)
        for lab, k, v in w:
            net.conns[lab].set_attr(**{k: None})
        solve_polished(net)
        agree(ref, net, sp, "reduced after rejection %s" % w)
    elif kind == "fluid":
        # second specification of a fluid in the same linear branch
        c = sp["conns"][w]
        fl = {f: x for f, x in ref.conns[c[0]].fluid.val.items() if x > 1e-4}
        comp = next(k for k in sp["comps"] if k[0] == c[1])
        if comp[1] not in judge.PASS or c[5].get("fluid"):
            return Outcome(False, labels=["fluid: skipped"])
        if len(fl) != 1:
            return Outcome(False, labels=["fluid: skipped"])
        net = spec.build(sp)
        # with the back end it is given with in the model
        full = {k.split("::")[-1].split("[")[0]: k for x in sp["conns"]
                for k in x[5].get("fluid", {})}
        net.conns[c[0]].set_attr(fluid={full.get(k.split("[")[0], k): 1
                                        for k in fl})
        # somewhere upstream or downstream the fluid is known
        known = any(x[5].get("fluid") for x in sp["conns"])
        if not known:
            return Outcome(False, labels=["fluid: skipped"])
        if not linear(sp, c[0]):
            return Outcome(False, labels=["fluid: skipped"])
        reject(net, "fluid twice in a branch %s" % c[0])
    elif kind == "drop":
        s2 = copy.deepcopy(sp)
        lab = s2["conns"][w][0]
        s2["conns"].pop(w)
        if any("ref" in v and v["ref"][0] == lab for c in s2["conns"]
               for v in c[5].values() if isinstance(v, dict)):
            return Outcome(False, labels=["drop: skipped"])
        s2.pop("udes", None)
        net = spec.build(s2)
        reject(net, "connection dropped %s" % lab)
    elif kind in ("dup_out", "dup_in"):
        s2 = copy.deepcopy(sp)
        c = s2["conns"][w]
        if kind == "dup_out":
            s2["comps"].append(["extra", "Sink", {}])
            s2["conns"].append(["extra", c[1], c[2], "extra", "in1", {}])
        else:
            s2["comps"].append(["extra", "Source", {}])
            s2["conns"].append(["extra", "extra", "out1", c[3], c[4],
                                {"fluid": {"water": 1}}])
        net = spec.build(s2)
        reject(net, "%s port used twice" % kind)
    elif kind == "closer":
        s2 = copy.deepcopy(sp)
        i = next(x for x in s2["conns"] if x[3] == w)
        o = next(x for x in s2["conns"] if x[1] == w)
        s2["comps"] = [k for k in s2["comps"] if k[0] != w]
        s2["conns"].remove(o)
        i[3:5] = o[3:5]
        for k, v in o[5].items():
            i[5].setdefault(k, v)
        if any("ref" in v and v["ref"][0] == o[0] for c in s2["conns"]
               for v in c[5].values() if isinstance(v, dict)):
            return Outcome(False, labels=["closer: skipped"])
        try:
            net = spec.build(s2)
            net.nw.solve("design")
        except Exception:
            return Outcome(True, labels=[kind])
        raise Violation("a cycle without a cycle closer was accepted",
                        key="accepted:closer")
    elif kind == "label":
        net = spec.build(sp)
        c = sp["conns"][w[1]]
        if w[0] == "conn":
            a = spec.C.Source("extra a")
            b = spec.C.Sink("extra b")
            x = Connection(a, "out1", b, "in1", label=c[0])
            try:
                net.nw.add_conns(x)
            except (ValueError, TESPyNetworkError):
                pass
            else:
                raise Violation("a second connection labelled %s was accepted"
                                % c[0], key="accepted:label")
        else:
            a = spec.C.Source(c[1])
            b = spec.C.Sink("extra b")
            x = Connection(a, "out1", b, "in1", label="extra")
            try:
                net.nw.add_conns(x)
            except (ValueError, TESPyNetworkError):
                pass
            else:
                raise Violation("a second component labelled %s was accepted"
                                % c[1], key="accepted:label")
            return Outcome(True, labels=[kind])
        # refused objects leave no trace
        solve_polished(net)
        agree(ref, net, sp, "after a refused connection")
    return Outcome(True, labels=[kind])


def linear(sp, lab):
    """Walk upstream through one-in-one-out components to a fluid spec."""
    cls = {k[0]: k[1] for k in sp["comps"]}
    cur = next(c for c in sp["conns"] if c[0] == lab)
    for _ in range(20):
        if cls[cur[1]] not in judge.PASS:
            return False
        nxt = [c for c in sp["conns"] if c[3] == cur[1]]
        if len(nxt) != 1:
            return False
        cur = nxt[0]
        if cur[5].get("fluid"):
            return True
    return False
