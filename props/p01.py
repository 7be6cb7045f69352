"""Conservation of mass, species and energy."""
from vf import judge, spec, zoo
from vf.core import Outcome

QUICK = 190
THOROUGH = 2500
RULE = ("the model has at least one component exchanging energy or mixing "
        "streams and the solve converged, so that every balance was "
        "evaluated on non-zero mass flows")


def gen(d):
    return zoo.draw(d, zoo.ALL).case()


def check(case):
    net = spec.build(case["spec"])
    spec.solve(net)
    judge.finite(net)
    n = judge.balances(net, case["spec"])
    return Outcome(n > 0, labels=[case["tpl"]])
