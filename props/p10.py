"""A reported result can be fed back as specification."""
import copy

from vf import judge, spec, zoo
from vf.core import Inconclusive, Outcome, Reject
from vf.meta_rel import agree, solve_polished
from vf.oracle import state_of

QUICK = 100
THOROUGH = 2000
RULE = ("at least one specified quantity was replaced by another reported "
        "result, both models converged and all states were compared")

SIMPLE = ("SimpleHeatExchanger", "HeatExchangerSimple", "Pipe",
          "SolarCollector", "ParabolicTrough")
HXS = ("HeatExchanger", "Condenser", "Desuperheater",
       "MovingBoundaryHeatExchanger")
GROUP = ("L", "D", "ks", "ks_HW", "kA", "Tamb", "E", "A", "eta_opt",
         "lkf_lin", "lkf_quad", "aoi", "doc", "c_1", "c_2", "iam_1", "iam_2")


def slots(cls):
    if cls in ("Pump", "Compressor", "Turbine"):
        return [["eta_s", "P"]]
    if cls in ("Valve",):
        return [["pr", "zeta"]]
    if cls in SIMPLE:
        return [["pr", "zeta"]]
    if cls in HXS:
        th = ["Q", "kA", "ttd_u", "ttd_l", "ttd_min", "eff_hot", "eff_cold",
              "eff_max"]
        if cls == "MovingBoundaryHeatExchanger":
            th = ["Q", "ttd_u", "ttd_l", "td_pinch", "UA"]
        if cls == "Condenser":
            th = ["Q", "kA", "ttd_u", "ttd_l", "ttd_min"]
        return [["pr1", "zeta1", "dp1"], ["pr2", "zeta2", "dp2"], th]
    if cls in ("CombustionChamber", "DiabaticCombustionChamber"):
        return [["lamb", "ti"]]
    if cls in ("FuelCell", "WaterElectrolyzer"):
        return [["P", "eta", "e"], ["pr", "zeta"]]
    if cls == "CombustionEngine":
        return [["pr1", "zeta1"], ["pr2", "zeta2"], ["lamb", "ti"]]
    return []


def swaps(sp):
    out = []
    for lab, cls, par in sp["comps"]:
        if any(isinstance(v, dict) or v == "var" for v in par.values()):
            continue
        for sl in slots(cls):
            given = [k for k in sl if isinstance(par.get(k), (int, float))]
            if len(given) == 1:
                for k in sl:
                    if k != given[0]:
                        out.append(["comp", lab, given[0], k])
        if cls in SIMPLE and "Q" not in par:
            if "L" in par and "pr" not in par:
                out.append(["hydro", lab, "L", "pr"])
            if "Tamb" in par and ("kA" in par or "E" in par):
                out.append(["thermal", lab, "Tamb", "Q"])
    for c in sp["conns"]:
        k = [q for q in ("T", "h", "x", "Td_bp") if q in c[5]]
        num = [q for q in k if isinstance(c[5][q], (int, float))]
        if len(k) == 1 and num:
            for q in ("T", "h", "x", "Td_bp"):
                if q != k[0]:
                    out.append(["conn", c[0], k[0], q])
        k = [q for q in ("m", "v") if isinstance(c[5].get(q), (int, float))]
        if len(k) == 1:
            out.append(["conn", c[0], k[0], "v" if k[0] == "m" else "m"])
    return out


def gen(d):
    mo = zoo.draw(d, zoo.ALL)
    case = mo.case()
    sw = swaps(case["spec"])
    if not sw:
        raise Reject
    n = d.choice([1, 1, 2, 3])
    chosen = []
    for s in d.perm(sw)[:12]:
        if all((s[0] == "conn") != (t[0] == "conn") or s[1] != t[1]
               or s[2] != t[2] for t in chosen):
            chosen.append(s)
        if len(chosen) == n:
            break
    case["swap"] = chosen
    case["near"] = d.bool(60)
    return case


def usable(net, s):
    """Is the new quantity well defined and invertible at this state?"""
    typ, lab, old, new = s
    if typ == "conn":
        st = state_of(net.conns[lab])
        if new in ("m", "v"):
            return True
        pure = st.fl.pure and not st.fl.incomp()
        ph = zoo.phase(st)
        if new == "h":
            return True
        if new == "T":
            return ph != "tp" and not (pure and st.subcritical
                                       and zoo.near_sat(st))
        if not pure or not st.subcritical:
            return False
        if new == "x":
            return ph == "tp"
        if new == "Td_bp":
            return ph in ("l", "g") and not zoo.near_sat(st)
        return False
    k = net.comps[lab]
    v = k.get_attr(new).val
    if v is None or v != v:
        return False
    cls = type(k).__name__
    i, o = [state_of(c) for c in k.inl], [state_of(c) for c in k.outl]
    if new.startswith("zeta"):
        j = int(new[4:] or 1) - 1
        return abs(o[j].p / i[j].p - 1) > 1e-4 and v > 0
    if new == "P" and cls in judge.WORK:
        return abs(o[0].h - i[0].h) > 500
    if new == "eta_s":
        return abs(o[0].h - i[0].h) > 500 and 0.05 < v <= 1
    if new.startswith("ttd") or new in ("kA", "td_pinch", "UA"):
        lim = {"ttd_u": 0.5, "ttd_l": 0.5, "kA": 0, "ttd_min": 0.5,
               "td_pinch": 0.5, "UA": 0}[new]
        if cls in SIMPLE:
            return v > 0
        if new in ("kA", "UA"):
            return k.ttd_u.val > 1 and k.ttd_l.val > 1 and v > 0
        return v > lim
    if new.startswith("eff"):
        return 0.05 < v < 0.95
    if new in ("e", "eta", "ti", "lamb"):
        return v > 0
    return True


def sensitive(case, a, s):
    """Does the new quantity respond to the replaced one?"""
    typ, lab, old, new = s
    if typ == "conn":
        return True
    sp = copy.deepcopy(case["spec"])
    par = next(c for c in sp["comps"] if c[0] == lab)[2]
    v0 = a.comps[lab].get_attr(new).val
    par[old] = par[old] * (0.99 if old in ("eta_s", "pr", "pr1", "pr2")
                           else 1.01)
    b = spec.build(sp)
    try:
        spec.solve(b)
    except Inconclusive:
        return False
    v1 = b.comps[lab].get_attr(new).val
    return v1 == v1 and abs(v1 - v0) > 1e-3 * abs(v0)


def check(case):
    a = spec.build(case["spec"])
    solve_polished(a)
    sp = copy.deepcopy(case["spec"])
    done = []
    for s in case["swap"]:
        if not usable(a, s) or not sensitive(case, a, s):
            continue
        typ, lab, old, new = s
        if typ == "conn":
            par = next(c for c in sp["conns"] if c[0] == lab)[5]
            v = a.conns[lab].get_attr(new).val_SI
        else:
            par = next(c for c in sp["comps"] if c[0] == lab)[2]
            v = float(a.comps[lab].get_attr(new).val)
            if typ == "hydro":
                for k in ("L", "D", "ks", "ks_HW"):
                    par.pop(k, None)
            elif typ == "thermal":
                for k in GROUP[4:]:
                    par.pop(k, None)
        par.pop(old, None)
        par[new] = v
        done.append(new)
    if not done:
        return Outcome(False, labels=["no usable swap"])
    if case["near"]:
        for c in sp["conns"]:
            k = a.conns[c[0]]
            c[5].update(m0=k.m.val_SI * 1.01, p0=k.p.val_SI * 1.01,
                        h0=k.h.val_SI + 500)
    b = spec.build(sp)
    try:
        solve_polished(b)
    except Inconclusive as e:
        raise Inconclusive("%s after swap %s" % (e, done), "after swap")
    agree(a, b, sp, "feedback of %s" % done, rel=1e-5, h_abs=20.0, x_abs=1e-5)
    return Outcome(True, labels=[case["tpl"]] + ["to:" + k for k in done])
