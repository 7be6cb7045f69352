"""Every specification is met by the converged state."""
from vf import judge, spec, zoo
from vf.core import Outcome

QUICK = 190
THOROUGH = 2500
RULE = ("the solve converged and at least three non-composition "
        "specifications were recomputed from the states")


def gen(d):
    return zoo.draw(d, zoo.ALL).case()


def check(case):
    net = spec.build(case["spec"])
    spec.solve(net)
    judge.finite(net)
    n = judge.check_conn_specs(net, case["spec"])
    n += judge.check_comp_specs(net, case["spec"])
    return Outcome(n > 3, labels=[case["tpl"]])
