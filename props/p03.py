"""Reported results follow from the reported states."""
from vf import judge, spec, zoo
from vf.core import Outcome

QUICK = 190
THOROUGH = 2500
RULE = ("the solve converged and at least ten reported result values were "
        "recomputed from mass flow, pressure, enthalpy and composition")


def gen(d):
    case = zoo.draw(d, zoo.ALL).case()
    for lab, cls, par in case["spec"]["comps"]:
        if cls in ("SimpleHeatExchanger", "Pipe") and "Tamb" not in par \
                and d.bool(40):
            # the ambient temperature alone makes kA a result
            par["Tamb"] = d.float(250, 800, 110)
    return case


def check(case):
    net = spec.build(case["spec"])
    spec.solve(net)
    judge.finite(net)
    n = judge.check_results(net, case["spec"])
    return Outcome(n > 10, labels=[case["tpl"]])
