"""An off-design calculation at the design point reproduces the design."""
import copy
import os
import shutil
import tempfile

import numpy as np

from tespy.networks import load_network
from vf import spec, zoo
from vf.core import Inconclusive, Outcome, Reject, Violation
from vf.meta_rel import compare_states, solve_polished
from props import p10
from props.p04 import draw_units
from props.p06 import wrap

QUICK = 50
THOROUGH = 1200
RULE = ("at least one parameter was switched between design and off-design "
        "and the off-design solution converged and was compared with the "
        "stored design")

TH = ("Q", "ttd_u", "ttd_l", "ttd_min", "eff_hot", "eff_cold", "eff_max",
      "td_pinch", "UA", "kA")


def options(sp):
    """[type, label, design parameter, off-design parameter, quantity]"""
    out = []
    for lab, cls, par in sp["comps"]:
        if any(isinstance(v, dict) or v == "var" for v in par.values()):
            continue
        num = {k for k, v in par.items() if isinstance(v, (int, float))
               and not isinstance(v, bool)}
        if cls in ("Pump", "Compressor", "Turbine"):
            if "eta_s" in num:
                out += [["comp", lab, "eta_s", "eta_s_char", "eta_s"]] * 3
                out.append(["comp", lab, "eta_s", "P", "P"])
                if cls == "Compressor":
                    out.append(["comp", lab, "eta_s", "char_map_eta_s",
                                "eta_s"])
            if cls == "Turbine" and "pr" in num:
                out += [["comp", lab, "pr", "cone", "pr"]] * 2
            if cls == "Compressor" and "pr" in num:
                out.append(["comp", lab, "pr", "char_map_pr", "pr"])
        if cls == "Valve" and "pr" in num:
            out.append(["comp", lab, "pr", "zeta", "zeta"])
        if cls in p10.SIMPLE:
            if "pr" in num:
                out.append(["comp", lab, "pr", "zeta", "zeta"])
            if "zeta" in num:
                out.append(["comp", lab, "zeta", "pr", "pr"])
            if "kA" in num and "Tamb" in num:
                out.append(["comp", lab, "kA", "kA_char", "kA"])
        if cls in p10.HXS:
            for k in "12":
                for a, b in (("pr", "zeta"), ("dp", "zeta"), ("zeta", "pr"),
                             ("pr", "dp")):
                    if a + k in num:
                        out.append(["comp", lab, a + k, b + k, b + k])
            th = [k for k in TH if k in num]
            if len(th) == 1 and cls != "MovingBoundaryHeatExchanger":
                for b in ("kA", "kA_char", "kA_char", "ttd_u", "ttd_l", "Q"):
                    if b != th[0]:
                        out.append(["comp", lab, th[0], b,
                                    "kA" if b == "kA_char" else b])
            elif len(th) == 1:
                for b in ("UA", "td_pinch", "ttd_u", "ttd_l", "Q"):
                    if b != th[0]:
                        out.append(["comp", lab, th[0], b, b])
        if cls in ("FuelCell", "WaterElectrolyzer"):
            # P is a variable of the component, if it is not given
            for a in ("eta", "e"):
                for b in ("eta", "e"):
                    if a in num and a != b and b not in num:
                        out.append(["comp", lab, a, b, b])
            if cls == "WaterElectrolyzer" and "eta" in num:
                out.append(["comp", lab, "eta", "eta_char", "eta"])
        if cls in ("CombustionChamber", "DiabaticCombustionChamber"):
            for a, b in (("lamb", "ti"), ("ti", "lamb")):
                if a in num:
                    out.append(["comp", lab, a, b, b])
    pars = {lab: par for lab, cls, par in sp["comps"]}
    out = [s for s in out if s[3] not in pars[s[1]]]
    for c in sp["conns"]:
        for a in ("T", "h", "x", "Td_bp"):
            if isinstance(c[5].get(a), (int, float)):
                for b in ("T", "h", "x", "Td_bp"):
                    if b != a and b not in c[5]:
                        out.append(["conn", c[0], a, b, b])
        for a, b in (("m", "v"), ("v", "m")):
            if isinstance(c[5].get(a), (int, float)) and b not in c[5]:
                out.append(["conn", c[0], a, b, b])
    return out


def gen(d):
    mo = zoo.draw(d, zoo.ALL)
    case = mo.case()
    opt = options(case["spec"])
    if not opt:
        raise Reject
    chosen = []
    for s in d.perm(opt)[:d.choice([1, 2, 4, 6])]:
        if all(s[:1] + s[1:3] != t[:1] + t[1:3] and s[:2] + s[3:4]
               != t[:2] + t[3:4] for t in chosen):
            if s[0] == "comp" and s[2] in TH and any(
                    t[:2] == s[:2] and t[2] in TH for t in chosen):
                continue
            chosen.append(s)
    case["switch"] = chosen
    case["units"] = draw_units(d) if d.bool(60) else {}
    case["units2"] = draw_units(d) if d.bool(50) else None
    if any(s[3][:2] == "dp" for s in chosen):
        # component files do not carry units: pressure differences are only
        # defined if both networks use the same unit
        case["units2"] = None
    case["how"] = d.choice(["same", "same", "fresh", "fresh", "load",
                            "individual"])
    return case


def fresh(case, done, units, net=None):
    """spec with the design / off-design lists."""
    sp = copy.deepcopy(case["spec"])
    sp["units"] = units
    for typ, lab, a, b, q in done:
        tab, i = (sp["conns"], 5) if typ == "conn" else (sp["comps"], 2)
        par = next(c for c in tab if c[0] == lab)[i]
        par.setdefault("design", []).append(a)
        par.setdefault("offdesign", []).append(b)
        if b.startswith("char_map"):
            par["igva"] = 0
    return sp


def check(case):
    probe = spec.build(case["spec"])
    solve_polished(probe)
    done = []
    for s in case["switch"]:
        if not p10.usable(probe, [s[0], s[1], s[2], s[4]]):
            continue
        if s[4] not in ("eta_s", "pr", "zeta", "zeta1", "zeta2") and not p10.sensitive(
                    case, probe, [s[0], s[1], s[2], s[4]]):
            continue
        done.append(s)
    if not done:
        return Outcome(False, labels=["nothing to switch"])
    what = ", ".join("%s.%s->%s" % (s[1], s[2], s[3]) for s in done)
    sp = fresh(case, done, case["units"])
    net = spec.build(sp)
    solve_polished(net)
    root = tempfile.mkdtemp(prefix="des")
    try:
        path = os.path.join(root, "design")
        net.nw.save(path)
        how = case["how"]
        if how == "same":
            off = net
            ref = spec.build(sp)
            solve_polished(ref)
            run(off, dict(design_path=path), what)
        else:
            ref = net
            if how == "load":
                ex = os.path.join(root, "export")
                net.nw.export(ex)
                nw = load_network(ex)
                nw.set_attr(iterinfo=False)
                off = wrap(nw, net)
            else:
                u2 = case["units2"]
                sp2 = fresh(case, done, case["units"] if u2 is None else u2)
                if how == "individual":
                    for c in sp2["comps"]:
                        c[2]["design_path"] = path
                    for c in sp2["conns"]:
                        c[5]["design_path"] = path
                off = spec.build(sp2)
            run(off, dict(design_path=path, init_path=path), what)
        compare(ref, off, "off-design at the design point (%s)" % what)
        # and back
        try:
            solve_polished(off)
        except Inconclusive as e:
            raise Inconclusive(str(e), "back to design")
        compare(ref, off, "design after off-design (%s)" % what)
        if how == "same":
            # the stored design is used again
            run(off, dict(design_path=path), what)
            compare(ref, off, "second off-design (%s)" % what)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return Outcome(True, labels=[case["tpl"], case["how"]]
                   + ["to:" + s[3] for s in done])


def run(net, kw, what):
    try:
        spec.solve(net, mode="offdesign", **kw)
    except Inconclusive as e:
        raise Inconclusive("%s (%s)" % (e, what), "off-design")


def compare(ref, off, what):
    try:
        compare_states(ref, off, what, rel=1e-5, h_abs=20.0, x_abs=1e-5)
    except Violation:
        r0 = float(off.nw.residual_history[0])
        if r0 < 1e-5 or condition(off.nw) > 1e10:
            raise Inconclusive("several solutions: " + what,
                               "several solutions")
        raise


def condition(nw):
    """Condition of the equations with rows and columns scaled."""
    j = np.array(nw.jacobian, dtype=float)
    if not j.size or not np.isfinite(j).all():
        return 1.0
    for _ in range(4):
        for ax in (0, 1):
            s = np.abs(j).max(axis=ax, keepdims=True)
            s[s == 0] = 1
            j = j / s
    sv = np.linalg.svd(j, compute_uv=False)
    return sv[0] / max(sv[-1], 1e-300)


__all__ = ["Violation"]
