"""Mixture properties follow the documented mixing rules."""
import math

from vf.core import Inconclusive, Outcome, Reject, Violation, require
from vf.oracle import AS, Fluid, molar_mass

QUICK = 450
THOROUGH = 20000
RULE = ("the mixture has at least two fluids with notable fractions and at "
        "least three functions were compared, among them an inverse one")
ASSUMPTIONS = ["the mixing rules of the documentation (ideal gases at their "
               "partial pressures, water condensing up to saturation, volumes "
               "of incompressibles adding up)"]

GAS = ["N2", "O2", "CO2", "Ar", "CH4", "H2", "CO"]
LIQ = ["water", "DowQ", "TVP1", "PNF2", "T72", "XLT2"]
CALLS = ["h_mix_pT", "s_mix_pT", "v_mix_pT", "T_mix_ph", "T_mix_ps",
         "s_mix_ph", "v_mix_ph", "isentropic", "viscosity_mix_pT",
         "viscosity_mix_ph", "dT_mix_pdh", "dT_mix_dph", "dT_mix_ph_dfluid",
         "dv_mix_dph", "dv_mix_pdh", "calc_physical_exergy", "permute",
         "zero", "molar"]
INV = {"T_mix_ph", "T_mix_ps", "s_mix_ph", "v_mix_ph", "isentropic",
       "viscosity_mix_ph"}


def gen(d):
    kind = d.choice(["dry", "humid", "humid", "cond", "cond", "incomp"])
    case = {"tpl": kind}
    if kind == "incomp":
        fl = d.subset(LIQ, 2, 3)
        case["rule"] = "incompressible"
        case["T"] = d.float(300, 345)
        case["p"] = d.log(1e5, 2e6)
        be = {f: "INCOMP" if f != "water" else "HEOS" for f in fl}
    else:
        fl = d.subset(GAS, 1 if kind != "dry" else 2, 4)
        be = {}
        w = d.choice(["H2O", "water", "Water"])
        case["rule"] = d.choice(["ideal", "ideal-cond", "ideal-cond", None])
        case["rule"] = case["rule"] or "ideal-cond"
        if kind == "cond":
            case["rule"] = "ideal-cond"
            fl.append(w)
            case["T"] = d.float(280, 370)
            case["p"] = d.log(8e4, 2e6)
        else:
            case["T"] = d.float(330, 1400)
            case["p"] = d.log(5e4, 3e6)
            if kind == "humid":
                fl.append(w)
    wt = [d.log(0.01, 1.0) for _ in fl]
    if d.bool(15):
        wt[d.int(0, len(wt) - 1)] *= 1e-3
    tot = sum(wt)
    case["x"] = {f: float("%.8g" % (v / tot)) for f, v in zip(fl, wt)}
    k = max(case["x"], key=case["x"].get)
    case["x"][k] = 1 - sum(v for f, v in case["x"].items() if f != k)
    case["be"] = be
    case["T0"] = d.choice([None, 0.0, "near", "near", "far"])
    case["p2"] = d.choice([0.3, 0.7, 1.5, 3.0])
    case["dT"] = d.float(-20, 20)
    case["perm"] = d.perm(fl)
    case["zeros"] = d.subset([f for f in GAS + ["R134a"] if f not in fl], 0, 2)
    case["calls"] = [d.choice(CALLS) for _ in range(d.int(4, 10))]
    case["features"] = ["rule." + case["rule"]] + [
        "call." + c for c in case["calls"]]
    return case


def build(case, names=None, zeros=()):
    from tespy.tools.fluid_properties.wrappers import CoolPropWrapper
    out = {}
    for f in names or case["x"]:
        out[f] = {"wrapper": CoolPropWrapper(f, case["be"].get(f)),
                  "mass_fraction": case["x"][f]}
    for f in zeros:
        out[f] = {"wrapper": CoolPropWrapper(f), "mass_fraction": 0.0}
    return out


def cmp_(got, exp, rel, abs_, what, case):
    if not abs(got - exp) <= rel * abs(exp) + abs_:
        raise Violation(
            "%s of %s (%s) at p=%.6g T=%.6g: %r, expected %r"
            % (what, {k: round(v, 5) for k, v in case["x"].items()},
               case["rule"], case["p"], case["T"], got, exp),
            key="%s:%s" % (case["rule"], what))


def check(case):
    from tespy.tools.fluid_properties import functions as ff
    from tespy.tools.fluid_properties import helpers as hh
    fl = Fluid(case["x"], case["be"], case["rule"])
    if fl.pure:
        raise Reject
    p, T, rule = case["p"], case["T"], case["rule"]
    data = build(case)
    try:
        h, s, v = fl.h_pT(p, T), fl.s_pT(p, T), fl.v_pT(p, T)
        cond = fl.condensing(p, T)
    except ValueError:
        raise Reject
    lo, hi = fl.tlim()
    if not lo + 5 < T < hi - 5:
        raise Reject
    # a gas may not be colder than its own dew point at the partial pressure
    for f, m, k, pp in fl._amounts(p, T):
        if k == "pT" and rule != "incompressible":
            a = AS(f, fl.be[f])
            if T < a.T_critical() * 1.02:
                if pp < a.p_critical():
                    import CoolProp as CP
                    if pp < a.keyed_output(CP.iP_triple) * 1.05:
                        raise Reject
                    a.update(CP.PQ_INPUTS, pp, 1)
                    if a.T() > T - 1:
                        raise Reject
    near = None
    if rule == "ideal-cond":
        # distance to the dew point: kinks of the functions
        try:
            near = fl.condensing(p * 1.02, T - 0.6) != \
                fl.condensing(p * 0.98, T + 0.6)
        except ValueError:
            near = True
    # start values of the inverse functions
    T0 = case["T0"]
    if T0 == "near":
        T0 = max(T + case["dT"], lo + 1)
    elif T0 == "far":
        T0 = T * (1 + 0.02 * case["dT"])
        T0 = min(max(T0, lo + 10), hi - 10)
    done = set()
    kw = {"mixing_rule": rule}

    def inv(name, *a):
        kk = dict(kw)
        if name != "isentropic":
            kk["T0"] = T0
        return getattr(ff, name)(*a, data, **kk)

    for fn in case["calls"]:
        done.add(fn)
        if fn == "h_mix_pT":
            cmp_(ff.h_mix_pT(p, T, data, **kw), h, 1e-9, 1e-3, fn, case)
        elif fn == "s_mix_pT":
            cmp_(ff.s_mix_pT(p, T, data, **kw), s, 1e-9, 1e-5, fn, case)
        elif fn == "v_mix_pT":
            cmp_(ff.v_mix_pT(p, T, data, **kw), v, 1e-8, 0, fn, case)
        elif fn in ("viscosity_mix_pT", "viscosity_mix_ph"):
            try:
                e = fl.visc_pT(p, T)
            except ValueError:
                done.discard(fn)
                continue
            if near:
                continue
            if fn.endswith("pT"):
                cmp_(ff.viscosity_mix_pT(p, T, data, **kw), e, 1e-7, 0, fn,
                     case)
            else:
                cmp_(call_inv(inv, fn, p, h), e, 1e-3, 0, fn, case)
        elif fn == "T_mix_ph":
            cmp_(call_inv(inv, fn, p, h), T, 2e-6, 2e-3, fn, case)
        elif fn == "T_mix_ps":
            cmp_(call_inv(inv, fn, p, s), T, 2e-6, 2e-3, fn, case)
        elif fn == "s_mix_ph":
            cmp_(call_inv(inv, fn, p, h), s, 1e-5, 5e-2, fn, case)
        elif fn == "v_mix_ph":
            cmp_(call_inv(inv, fn, p, h), v, 1e-4, 0, fn, case)
        elif fn == "isentropic":
            p2 = p * case["p2"]
            try:
                T2 = fl.T_ps(p2, s)
                e = fl.h_pT(p2, T2)
                if abs(fl.s_pT(p2, T2) - s) > 1e-4:
                    raise ValueError        # inside of a jump
                if fl.condensing(p2, T2) != cond or not lo + 8 < T2 < hi - 8:
                    raise ValueError
            except ValueError:
                done.discard(fn)
                continue
            cmp_(call_inv(inv, fn, p, h, p2), e, 1e-5, 20, fn, case)
        elif fn.startswith("dT") or fn.startswith("dv"):
            if near or case["T0"] == "far" or (
                    cond and fn.endswith("dfluid")):
                done.discard(fn)
                continue
            deriv(case, fn, fl, data, ff, p, T, h, v, rule, inv)
        elif fn == "calc_physical_exergy":
            Ta, pa = 298.15, 1.01325e5
            try:
                h1, s1 = fl.h_pT(p, Ta), fl.s_pT(p, Ta)
                h0, s0 = fl.h_pT(pa, Ta), fl.s_pT(pa, Ta)
            except ValueError:
                done.discard(fn)
                continue
            et, em = ff.calc_physical_exergy(h, s, p, pa, Ta, data, **kw)
            cmp_(et, h - h1 - Ta * (s - s1), 1e-6, 1, "thermal exergy", case)
            cmp_(em, h1 - h0 - Ta * (s1 - s0), 1e-6, 1, "mechanical exergy",
                 case)
        elif fn == "permute":
            d2 = build(case, case["perm"])
            cmp_(ff.h_mix_pT(p, T, d2, **kw), h, 1e-9, 1e-3, fn, case)
            cmp_(ff.v_mix_pT(p, T, d2, **kw), v, 1e-8, 0, fn, case)
            cmp_(ff.s_mix_pT(p, T, d2, **kw), s, 1e-9, 1e-5, fn, case)
        elif fn == "zero":
            if not case["zeros"]:
                done.discard(fn)
                continue
            d2 = build(case, None, case["zeros"])
            cmp_(ff.h_mix_pT(p, T, d2, **kw), h, 1e-9, 1e-3, fn, case)
            cmp_(ff.s_mix_pT(p, T, d2, **kw), s, 1e-9, 1e-5, fn, case)
            cmp_(ff.v_mix_pT(p, T, d2, **kw), v, 1e-8, 0, fn, case)
            rng = hh.get_mixture_temperature_range(d2)
            require(rng == hh.get_mixture_temperature_range(data),
                    "temperature range depends on absent fluids")
            require(hh.get_number_of_fluids(d2)
                    == hh.get_number_of_fluids(data), "number of fluids")
        elif fn == "molar":
            if rule == "incompressible":
                done.discard(fn)
                continue
            n = {f: x / molar_mass(f) for f, x in case["x"].items()}
            tot = sum(n.values())
            got = hh.get_molar_fractions(data)
            for f in n:
                cmp_(got[f], n[f] / tot, 1e-9, 0, "molar fraction", case)
            cmp_(hh.calc_molar_mass_mixture(data, got), 1 / tot, 1e-9, 0,
                 "molar mass", case)
    for f, dd in data.items():
        require(abs(dd["mass_fraction"] - case["x"][f]) < 1e-12,
                "mass fraction of %s changed by a property evaluation" % f)
    big = sum(1 for x in case["x"].values() if x > 1e-3) >= 2
    return Outcome(big and len(done) >= 3 and bool(done & INV),
                   [rule] + (["condensing"] if cond else []))


def call_inv(inv, name, *a):
    try:
        return inv(name, *a)
    except ValueError as e:
        raise Inconclusive("%s: %s" % (name, e), "inverse function")


def deriv(case, fn, fl, data, ff, p, T, h, v, rule, inv):
    if fn == "dT_mix_ph_dfluid":
        f = case["perm"][0]
        if case["x"][f] < 1e-3:
            return
        dx = 1e-4

        def g(k):
            x = dict(case["x"])
            x[f] += k
            return Fluid(x, case["be"], rule).T_ph(p, h)
        got = ff.dT_mix_ph_dfluid(p, h, f, data, mixing_rule=rule, T0=T)
        e = (g(dx) - g(-dx)) / (2 * dx)
        cmp_(got, e, 2e-2, 100 * 1e-3, fn, case)
        return
    out = fn[1]
    if fn.endswith("pdh"):
        dx = 300.0

        def g(k):
            return (fl.T_ph if out == "T" else fl.v_ph)(p, h + k)
    else:
        dx = p * 3e-3

        def g(k):
            return (fl.T_ph if out == "T" else fl.v_ph)(p + k, h)
    try:
        e = (g(dx) - g(-dx)) / (2 * dx)
        e2 = (g(2 * dx) - g(-2 * dx)) / (4 * dx)
    except ValueError:
        return
    got = getattr(ff, fn)(p, h, data, mixing_rule=rule, T0=T)
    # inner iterations stop at a relative enthalpy error of 1e-6
    noise = (2e-6 if out == "T" else 2e-6 * v) * 5
    cmp_(got, e, 3e-2, 3 * abs(e - e2) + noise, fn, case)
