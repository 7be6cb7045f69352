"""The unit system does not influence the physics."""
from vf import judge, spec, zoo
from vf.core import Inconclusive, Outcome
from vf.meta_rel import agree, solve_polished

QUICK = 80
THOROUGH = 1500
RULE = ("at least two properties use non-SI units, both models converged and "
        "all states were compared")


def draw_units(d):
    units = {}
    for prop in ("m", "v", "p", "h", "T", "vol", "x", "s"):
        if d.bool(75):
            units[prop] = d.choice(sorted(spec.UNITS[prop]))
    return units


def gen(d):
    mo = zoo.draw(d, zoo.ALL)
    if d.bool(30):
        mo.starting_values(d)
    case = mo.case()
    case["units"] = draw_units(d)
    case["units2"] = draw_units(d) if d.bool(50) else None
    if d.bool(30):
        t = mo.truth.values()
        case["spec"]["ranges"] = {
            "m": [-1e3, max(s.m for s in t) * d.choice([1.5, 3, 100]) + 1],
            "p": [min(s.p for s in t) * 0.5,
                  max(s.p for s in t) * d.choice([1.3, 2, 5])],
            "h": [min(s.h for s in t) - d.choice([5e4, 2e5]),
                  max(s.h for s in t) + d.choice([5e4, 2e5])]}
    return case


def change_units(net, sp, units):
    """The user switches units and states all values in the new ones."""
    full = dict(spec.SI, **units)
    net.units = full
    net.nw.set_attr(**{p + "_unit": full[p] for p in
                       ("m", "v", "p", "h", "T", "vol", "x", "s")})
    for prop, rng in sp.get("ranges", {}).items():
        net.nw.set_attr(**{prop + "_range": [spec.to_unit(prop, r, full)
                                             for r in rng]})
    for lab, cls, par in sp["comps"]:
        spec.apply_comp(net, lab, {k: v for k, v in par.items()
                                   if k in spec.COMP_UNITS})
    for c in sp["conns"]:
        spec.apply_conn(net, c[0], {k: v for k, v in c[5].items()
                                    if not k.startswith("fluid")})


def check(case):
    a = spec.build(case["spec"])
    sp = dict(case["spec"], units=case["units"])
    b = spec.build(sp)
    solve_polished(a)
    try:
        solve_polished(b)
    except Inconclusive as e:
        raise Inconclusive(str(e), "only one unit system converged")
    agree(a, b, sp, "units %s" % case["units"])
    judge.check_conn_specs(b, sp)
    judge.check_comp_specs(b, sp)
    n = judge.check_results(b, sp)
    if case.get("units2") is not None:
        change_units(b, sp, case["units2"])
        try:
            solve_polished(b)
        except Inconclusive as e:
            raise Inconclusive(str(e), "other units in the same network")
        sp = dict(sp, units=case["units2"])
        agree(a, b, sp, "units changed from %s to %s"
              % (case["units"], case["units2"]))
        judge.check_conn_specs(b, sp)
        judge.check_comp_specs(b, sp)
        judge.check_results(b, sp)
    non_si = sum(u != spec.SI[p] for p, u in case["units"].items())
    return Outcome(n > 0 and non_si >= 2, labels=[case["tpl"]])
