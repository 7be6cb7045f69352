"""Comparing the solutions of two models that must agree."""
from vf import spec as S
from vf.core import Inconclusive, Violation
from vf.judge import finite


def solve_polished(net, **kw):
    """Solve, then continue the iteration from the solution.

    The convergence criterion is absolute (norm of the residuals < 1e-3), so
    the first solve may stop a little off the root; a second one started from
    it ends at the root to rounding precision.  The state must not move
    further than the criterion explains, which the caller checks by comparing.
    """
    S.solve(net, **kw)
    finite(net)
    S.solve(net, **kw)
    finite(net)
    return net


def compare_states(a, b, what, rel=1e-5, names=None, m_factor=1.0, h_abs=5.0,
                   x_abs=1e-6, fluid_names=None):
    """States of net a and net b (labels of a; names maps a -> b).

    A small mass flow can be the difference of two large ones, so its error
    is measured relative to the large ones as well (within limits).
    """
    n = 0
    m_max = max(abs(c.m.val_SI) for c in b.conns.values())
    for lab, ca in a.conns.items():
        cb = b.conns[names[lab] if names else lab]
        for k, fac, ab in (("m", m_factor, 1e-9), ("p", 1.0, 1e-3),
                           ("h", 1.0, h_abs)):
            va = ca.get_attr(k).val_SI * fac
            vb = cb.get_attr(k).val_SI
            tol = rel * max(abs(va), abs(vb))
            if k == "m":
                tol = max(tol, min(100 * tol, rel * m_max))
            if not abs(va - vb) <= ab + tol:
                raise Violation(
                    "%s: %s of connection %s is %.10g in one model, %.10g in "
                    "the equivalent one" % (what, k, lab, va, vb),
                    key="differs:%s" % k)
            n += 1
        fa = {f: x for f, x in ca.fluid.val.items() if x > 1e-8}
        fb = {f: x for f, x in cb.fluid.val.items() if x > 1e-8}
        if fluid_names:
            fa = {fluid_names.get(f, f): x for f, x in fa.items()}
        for f in set(fa) | set(fb):
            if abs(fa.get(f, 0) - fb.get(f, 0)) > x_abs:
                raise Violation(
                    "%s: fraction of %s at %s is %.9g in one model, %.9g in "
                    "the equivalent one" % (what, f, lab, fa.get(f, 0),
                                            fb.get(f, 0)),
                    key="differs:fluid")
    return n



def started_from(spec, net, names=None, m_factor=1.0):
    """The spec with starting values taken from the solution of `net`."""
    conns = []
    for c in spec["conns"]:
        lab = names[c[0]] if names else c[0]
        k = net.conns[lab]
        conns.append(c[:5] + [dict(c[5], m0=k.m.val_SI * m_factor,
                                   p0=k.p.val_SI, h0=k.h.val_SI)])
    return dict(spec, conns=conns)


def agree(a, b, spec_b, what, names=None, m_factor=1.0, **kw):
    """Solutions of a and b agree, or a's solution also solves b.

    Some models have several solutions and the iteration path decides which
    one is found; then the solution of `a`, used as starting point, must be
    confirmed by model b.
    """
    try:
        return compare_states(a, b, what, names=names, m_factor=m_factor,
                              **kw)
    except Violation:
        inv = {v: k for k, v in names.items()} if names else None
        c = S.build(started_from(spec_b, a, inv, m_factor))
        try:
            # the first residual is taken at the starting values
            c.nw.solve("design", max_iter=1)
            r0 = float(c.nw.residual_history[0])
        except Exception:
            r0 = float("inf")
        if r0 < 2e-3:
            raise Inconclusive("several solutions", "several solutions")
        c = S.build(started_from(spec_b, a, inv, m_factor))
        try:
            solve_polished(c)
        except Inconclusive:
            raise Inconclusive("other solution not confirmed: " + what,
                               "several solutions?")
        compare_states(a, c, what, names=names, m_factor=m_factor, **kw)
        raise Inconclusive("several solutions", "several solutions")
