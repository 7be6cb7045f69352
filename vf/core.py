"""Shared vocabulary of the checks."""


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        # stable identification used to match known findings
        self.key = key or msg


class Inconclusive(Exception):
    """The case could not be decided (e.g. no numerical convergence)."""

    def __init__(self, msg, label="no convergence"):
        super().__init__(msg)
        self.label = label


class Reject(Exception):
    """The generator produced something outside of the property's domain."""


class Outcome:
    """What a check reports for a case on which the property held."""

    def __init__(self, nontrivial=True, labels=()):
        self.nontrivial = nontrivial
        self.labels = list(labels)


def close(a, b, rel=1e-6, abs_=1e-9):
    if a is None or b is None:
        return a is b
    try:
        if a != a and b != b:
            return True
        return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))
    except TypeError:
        return a == b


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg, key)
