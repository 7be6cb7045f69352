"""Scaling the plant size scales flows and leaves intensive states alone."""
import copy

from vf import spec, zoo
from vf.core import Inconclusive, Outcome, Reject, Violation
from vf.meta_rel import agree, solve_polished

QUICK = 80
THOROUGH = 1500
RULE = ("the factor differs from one by more than 10 %, both sizes converged "
        "and all states and the heat and power of all components were "
        "compared")

LIN = {"m", "v", "P", "Q", "kA", "UA", "A", "Q1", "Q2", "ti", "Q_loss", "m0"}
INV2 = {"zeta", "zeta1", "zeta2", "zeta3"}
HYDRO = {"L", "D", "ks", "ks_HW"}


def gen(d):
    mo = zoo.draw(d, zoo.ALL)
    if d.bool(40):
        mo.starting_values(d)
    case = mo.case()
    sp = case["spec"]
    for k in sp["comps"]:
        if HYDRO & set(k[2]):
            raise Reject
        if any(isinstance(v, dict) for v in k[2].values()):
            raise Reject
        if k[1] == "CombustionEngine":
            raise Reject        # characteristics depend on the size itself
        if k[1] == "Valve" and "dp_char" in k[2]:
            raise Reject
    case["f"] = d.choice([0.01, 0.03, 0.1, 0.3, 0.8, 1.25, 2.0, 3.0, 10.0, 50.0])
    return case


def scale(sp, f):
    s = copy.deepcopy(sp)

    def par(p):
        out = {}
        for k, v in p.items():
            if isinstance(v, dict) and "ref" in v:
                lab, a, b = v["ref"]
                if k in LIN:
                    v = {"ref": [lab, a, b * f]}
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                if k in LIN:
                    v = v * f
                elif k in INV2:
                    v = v / f ** 2
            out[k] = v
        return out

    s["comps"] = [[a, b, par(c)] for a, b, c in s["comps"]]
    s["conns"] = [c[:5] + [par(c[5])] for c in s["conns"]]
    for b in s.get("busses", []):
        if b[1].get("P") is not None:
            b[1]["P"] *= f
    for u in s.get("udes", []):
        if u[1] == "m_lin":
            u[3]["d"] *= f
    return s


def check(case):
    f = case["f"]
    a = spec.build(case["spec"])
    solve_polished(a)
    s2 = scale(case["spec"], f)
    b = spec.build(s2)
    try:
        solve_polished(b)
    except Inconclusive as e:
        raise Inconclusive(str(e), "only one size converged")
    agree(a, b, s2, "size times %g" % f, m_factor=f, rel=1e-5, h_abs=5.0,
          x_abs=1e-5)
    n = 0
    for lab, ka in a.comps.items():
        if not ka.inl:
            continue
        flow = sum(abs(c.m.val_SI * c.h.val_SI) for c in ka.inl + ka.outl)
        for q in ("P", "Q", "ti"):
            if not hasattr(ka, q):
                continue
            va = ka.get_attr(q).val
            vb = b.comps[lab].get_attr(q).val
            if va is None or va != va:
                continue
            n += 1
            if not abs(va * f - vb) <= 0.1 * f + 1e-4 * abs(vb) \
                    + 2e-5 * f * flow:
                raise Violation("size times %g: %s of %s is %.9g, was %.9g"
                                % (f, q, lab, vb, va), key="scale:" + q)
    return Outcome(n > 0, labels=[case["tpl"]])
