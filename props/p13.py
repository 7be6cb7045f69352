"""Property functions of pure fluids agree with the property database."""
import math

import CoolProp as CP
import CoolProp.CoolProp as CPC

from vf.core import Inconclusive, Outcome, Reject, Violation, require

QUICK = 400
THOROUGH = 20000
RULE = ("at least three different property functions were evaluated and "
        "compared at one or more states of the fluid, at least one of them "
        "through an iterative or inverse evaluation (p-h, p-s, saturation)")
ASSUMPTIONS = ["CoolProp's high level interface PropsSI is the reference; "
               "tespy uses the low level AbstractState interface",
               "iapws and PYroMat formulations differ from CoolProp by less "
               "than the tolerances used for them"]

HEOS = ["water", "H2O", "R134a", "NH3", "R1234yf", "isobutane", "air", "N2",
        "O2", "CO2", "CH4", "H2", "Ar", "n-Pentane", "Toluene", "R245fa",
        "Methanol", "Ethanol", "SO2", "CO"]
INCOMP = ["Water", "DowQ", "TVP1", "NaK", "PNF2", "TX22", "MEG[0.3]",
          "MEG[0.55]", "MPG[0.4]", "MEA[0.25]", "MITSW[0.05]", "LiBr[0.3]"]
IDEAL = ["N2", "O2", "CO2", "H2", "CO", "CH4"]
MEMO = {}


def P(out, a, x, b, y, name):
    return CPC.PropsSI(out, a, float(x), b, float(y), name)


def triv(out, name):
    k = (out, name)
    if k not in MEMO:
        MEMO[k] = CPC.PropsSI(out, name)
    return MEMO[k]


# ------------------------------------------------------------- generator
def gen(d):
    eng = d.choice(["heos"] * 20 + ["incomp"] * 10 + ["iapws97"] * 6 +
                   ["iapws95"] * 2 + ["pyromat-ig"] * 3 + ["pyromat"])
    case = {"engine": eng}
    if eng == "heos":
        case["fluid"] = d.choice(HEOS)
    elif eng == "incomp":
        case["fluid"] = d.choice(INCOMP)
    elif eng.startswith("iapws"):
        case["fluid"] = d.choice(["H2O", "water"])
    elif eng == "pyromat":
        case["fluid"] = "H2O"
    else:
        case["fluid"] = d.choice(IDEAL)
    n = d.int(1, 3)
    if eng in ("iapws95", "pyromat"):
        n = 1
    case["states"] = [state(d, eng, case["fluid"]) for _ in range(n)]
    case["p2"] = d.float(0.15, 4.0)
    case["zero"] = d.choice([[], [], ["N2"], ["N2", "CO2"]])
    case["zval"] = d.choice([0, 0, 5e-7])
    case["rule"] = d.choice([None, "ideal", "ideal-cond", "incompressible"])
    names = [c for c in CALLS if usable(eng, case["fluid"], c)]
    case["calls"] = [[d.int(0, n - 1), d.choice(names)]
                     for _ in range(d.int(*{"iapws95": (3, 5), "pyromat": (4, 6),
                                            "heos": (6, 20),
                                            "incomp": (8, 20)}.get(
                                                eng, (5, 12))))]
    case["features"] = ["fluid." + case["fluid"]] + [
        "%s.%s" % (eng, c) for _, c in case["calls"]]
    case["tpl"] = eng
    return case


def state(d, eng, fluid):
    """region of the state; numbers relative to the fluid's range"""
    # iapws solves two phase states of the 1995 formulation only roughly
    regs = ["l", "g", "tp", "sc", "g"] if eng != "iapws95" else ["l", "g"]
    return {"reg": d.choice(regs),
            "p": d.float(0, 1), "T": d.float(0, 1), "Q": d.float(0.02, 0.98)}


def cpname(case):
    f = case["fluid"]
    if case["engine"] == "incomp":
        return "INCOMP::" + f
    return f


def resolve(case, st):
    """-> dict p, T, h, s, Q or None"""
    name = cpname(case)
    eng = case["engine"]
    if eng == "incomp":
        lo, hi = triv("T_min", name), triv("T_max", name)
        if "[" in name:
            try:
                lo = max(lo, triv("T_freeze", name))
            except ValueError:
                pass
        lo, hi = lo + 5, hi - 5
        T = lo + (hi - lo) * st["T"]
        p = 1e5 * 10 ** (1.5 * st["p"])
        try:
            if P("P", "T", T, "Q", 0, name) > 0.9 * p:
                p = 2 * P("P", "T", T, "Q", 0, name)
        except ValueError:
            pass
        return {"p": p, "T": T, "reg": "l"}
    if eng == "pyromat-ig":
        T = 280 + 900 * st["T"]
        return {"p": 1e4 * 10 ** (1.0 * st["p"]), "T": T, "reg": "g"}
    pc, Tc = triv("Pcrit", name), triv("Tcrit", name)
    pt = max(triv("ptriple", name), 1e3)
    Tt = triv("Ttriple", name)
    Tmax = min(triv("T_max", name), 1100)
    reg = st["reg"]
    if reg == "sc":
        p = pc * (1.15 + 1.5 * st["p"])
        T = Tc * (1.1 + 0.8 * st["T"])
        return {"p": min(p, 5e7), "T": min(T, Tmax), "reg": "sc"}
    p = pt * 1.3 * (0.85 * pc / (pt * 1.3)) ** st["p"]
    Ts = P("T", "P", p, "Q", 0, name)
    Tg = P("T", "P", p, "Q", 1, name)
    if reg == "tp":
        if name in ("air",):
            raise Reject
        return {"p": p, "T": Ts, "Q": st["Q"], "reg": "tp"}
    if reg == "l":
        T = Tt + 3 + (Ts - 1.5 - Tt - 3) * st["T"]
        if T > Ts - 1:
            raise Reject
        return {"p": p, "T": T, "reg": "l"}
    T = Tg + 1.5 + (min(Tmax, Tg + 500) - Tg - 1.5) * st["T"]
    return {"p": p, "T": T, "reg": "g"}


# ------------------------------------------------------------ functions
CALLS = ["h_mix_pT", "T_mix_ph", "s_mix_ph", "s_mix_pT", "v_mix_ph",
         "v_mix_pT", "T_mix_ps", "isentropic", "Q_mix_ph", "phase_mix_ph",
         "h_mix_pQ", "T_sat_p", "p_sat_T", "viscosity_mix_ph",
         "viscosity_mix_pT", "dT_mix_pdh", "dT_mix_dph", "dv_mix_dph",
         "dv_mix_pdh", "dh_mix_dpQ", "dT_sat_dp", "calc_physical_exergy",
         "h_QT", "s_QT", "d_QT", "gibbs"]
SAT = ("Q_mix_ph", "phase_mix_ph", "h_mix_pQ", "T_sat_p", "p_sat_T",
       "dh_mix_dpQ", "dT_sat_dp", "h_QT", "s_QT", "d_QT")
NEEDPT = ("h_mix_pT", "s_mix_pT", "v_mix_pT", "viscosity_mix_pT")
INV = ("T_mix_ph", "s_mix_ph", "v_mix_ph", "T_mix_ps", "isentropic",
       "Q_mix_ph", "T_sat_p", "p_sat_T", "viscosity_mix_ph")


def usable(eng, fluid, fn):
    if fn in SAT and (eng in ("incomp", "pyromat-ig") or fluid == "air"):
        return False
    if eng.startswith("pyromat"):
        if fn.startswith("visc") or fn in (
                "T_sat_p", "p_sat_T", "dT_sat_dp", "h_mix_pQ", "dh_mix_dpQ",
                "phase_mix_ph"):
            return False
        if eng == "pyromat-ig" and fn in ("s_mix_pT", "gibbs"):
            return False
    if eng != "heos" and eng != "incomp" and (
            fn[:2] in ("dT", "dv", "dh") or fn == "calc_physical_exergy"):
        return False
    return True


def make(case):
    from tespy.tools.fluid_properties import wrappers as w
    eng, f = case["engine"], case["fluid"]
    if eng == "heos":
        wr = w.CoolPropWrapper(f)
    elif eng == "incomp":
        wr = w.CoolPropWrapper(f, "INCOMP")
    elif eng == "iapws97":
        wr = w.IAPWSWrapper(f, "IF97")
    elif eng == "iapws95":
        wr = w.IAPWSWrapper(f, "IF95")
    elif eng == "pyromat":
        wr = w.PyromatWrapper(f, "mp")
    else:
        wr = w.PyromatWrapper(f, "ig")
    data = {}
    items = [(f, wr, 1 - len(case["zero"]) * case["zval"])]
    for z in case["zero"]:
        if z != f:
            items.append((z, w.CoolPropWrapper(z), case["zval"]))
    if case["p2"] > 2:
        items.reverse()
    for k, x, v in items:
        data[k] = {"wrapper": x, "mass_fraction": v}
    return data, wr


def check(case):
    import warnings
    warnings.simplefilter("ignore")
    from tespy.tools import fluid_properties as fp
    from tespy.tools.fluid_properties import functions as ff
    eng = case["engine"]
    name = cpname(case)
    data, wr = make(case)
    data0 = {k: dict(v) for k, v in data.items()}
    sts = []
    for st in case["states"]:
        r = resolve(case, st)
        if "Q" in r:
            r["h"] = P("H", "P", r["p"], "Q", r["Q"], name)
            r["s"] = P("S", "P", r["p"], "Q", r["Q"], name)
            r["rho"] = P("D", "P", r["p"], "Q", r["Q"], name)
        else:
            r["h"] = P("H", "P", r["p"], "T", r["T"], name)
            r["s"] = P("S", "P", r["p"], "T", r["T"], name)
            r["rho"] = P("D", "P", r["p"], "T", r["T"], name)
        sts.append(r)
    # formulations other than CoolProp: own reference point
    foreign = eng.startswith("iapws") or eng.startswith("pyro")
    tol = {"heos": 1e-7, "incomp": 1e-7, "iapws97": 2e-3, "iapws95": 1e-3,
           "pyromat": 4e-3, "pyromat-ig": 2e-2}[eng]
    done = set()
    labels = set()
    for i, fn in case["calls"]:
        r = sts[i]
        p, T, h, s = r["p"], r["T"], r["h"], r["s"]
        if foreign:
            # enthalpy and entropy on the scale of the formulation
            try:
                if r["reg"] == "tp":
                    h = wr.h_QT(r["Q"], T)
                    s = wr.s_QT(r["Q"], T)
                else:
                    h = wr.h_pT(p, T)
                    if eng == "pyromat-ig":
                        s = wr.s_ph(p, h)
                    else:
                        s = wr.s_pT(p, T)
            except NotImplementedError as e:
                raise Inconclusive(str(e), "range of the formulation")
            if eng != "pyromat-ig":
                cmp_(h, r["h"], tol, 1500 + 3 * tol * 1e5, "enthalpy", case, r)
                cmp_(s, r["s"], tol, 8, "entropy", case, r)
        if fn in NEEDPT and r["reg"] == "tp":
            continue
        if fn in SAT and r["reg"] == "sc":
            continue
        try:
            ok = one(case, fn, r, p, T, h, s, data, wr, name, tol, foreign,
                     fp, ff)
        except Skip:
            continue
        if ok:
            done.add(fn)
            labels.add("%s:%s" % (eng, fn))
    for k, v in data.items():
        require(v["mass_fraction"] == data0[k]["mass_fraction"],
                "composition of the fluid changed by a property evaluation")
    return Outcome(len(done) >= 3 and bool(done & set(INV)),
                   [eng] + sorted({r["reg"] for r in sts}))


class Skip(Exception):
    pass


def cmp_(got, exp, rel, abs_, what, case, r):
    ok = abs(got - exp) <= rel * abs(exp) + abs_
    if not (got == got) or not ok:
        raise Violation(
            "%s of %s (%s) at p=%.6g T=%.6g region %s: %r, expected %r"
            % (what, case["fluid"], case["engine"], r["p"], r["T"], r["reg"],
               got, exp), key="%s:%s" % (case["engine"], what))


def raised_by_tespy(e):
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return "tespy" in tb.tb_frame.f_code.co_filename


def flash_fails(name, p, h, s, p2):
    """the database itself has no solution for one of these inputs"""
    be, f = name.split("::") if "::" in name else ("HEOS", name)
    frac = None
    if "[" in f:
        f, frac = f[:-1].split("[")
    for inp, a, b in ((CP.HmassP_INPUTS, h, p), (CP.PSmass_INPUTS, p, s),
                      (CP.PSmass_INPUTS, p2, s)):
        st = CP.AbstractState(be, f)
        if frac:
            try:
                st.set_volu_fractions([float(frac)])
            except ValueError:
                st.set_mass_fractions([float(frac)])
        try:
            st.update(inp, a, b)
        except ValueError:
            return True
    return False


def ref(out, a, x, b, y, name):
    try:
        return P(out, a, x, b, y, name)
    except ValueError:
        raise Skip


def one(case, fn, r, p, T, h, s, data, wr, name, tol, foreign, fp, ff):
    eng = case["engine"]
    kw = {"mixing_rule": case["rule"]}
    args = {"h_mix_pT": (p, T), "T_mix_ph": (p, h), "s_mix_ph": (p, h),
            "s_mix_pT": (p, T), "v_mix_ph": (p, h), "v_mix_pT": (p, T),
            "T_mix_ps": (p, s), "Q_mix_ph": (p, h), "phase_mix_ph": (p, h),
            "viscosity_mix_ph": (p, h), "viscosity_mix_pT": (p, T),
            "dT_mix_pdh": (p, h), "dT_mix_dph": (p, h),
            "dv_mix_dph": (p, h), "dv_mix_pdh": (p, h)}

    def call(f, *a, **k):
        try:
            return getattr(ff, f)(*a, data, **{**kw, **k})
        except NotImplementedError as e:
            if "ncoming out of bound" in str(e):
                raise Inconclusive(str(e), "range of the formulation")
            raise
        except Exception as e:
            if foreign and not raised_by_tespy(e):
                raise Inconclusive("%s: %s" % (fn, e),
                                   "range of the formulation")
            if "Brent" in str(e) and eng == "incomp":
                raise Skip
            if not foreign and flash_fails(name, p, h, s, p * case["p2"]):
                raise Skip
            raise

    hs = 1500 if foreign else 0.5       # J/kg
    ss = 5 if foreign else 5e-3
    Ts = 0.25 if foreign else 2e-5
    if fn == "h_mix_pT":
        cmp_(call(fn, p, T), h, 1e-9, 1e-6, fn, case, r)
    elif fn in ("s_mix_pT", "s_mix_ph"):
        cmp_(call(fn, *args[fn]), s, 1e-6, 0.8 if foreign else 1e-4, fn,
             case, r)
    elif fn in ("T_mix_ph", "T_mix_ps"):
        if not foreign:
            ref("T", "P", p, fn[-1].upper(), h if fn[-1] == "h" else s, name)
        cmp_(call(fn, *args[fn]), T, 1e-6, 0.1 if foreign else 1e-4, fn,
             case, r)
    elif fn in ("v_mix_ph", "v_mix_pT"):
        cmp_(call(fn, *args[fn]), 1 / r["rho"],
             max(tol, 1e-6) if fn == "v_mix_pT" or not foreign else 1e-2, 0,
             fn, case, r)
    elif fn in ("viscosity_mix_ph", "viscosity_mix_pT"):
        if r["reg"] == "tp":
            raise Skip
        try:
            exp = P("V", "P", p, "T", T, name)
        except ValueError:
            raise Skip
        cmp_(call(fn, *args[fn]), exp, 0.05 if foreign else 1e-5, 0, fn,
             case, r)
    elif fn == "isentropic":
        p2 = p * case["p2"]
        if eng == "incomp":
            p2 = max(p2, p)
        if eng == "heos" or eng.startswith("iapws"):
            lim = triv("ptriple", name) * 1.2
            if not lim < p2 < 5e7:
                raise Skip
        if eng in ("heos", "incomp"):
            exp = ref("H", "P", p2, "S", s, name)
            T2 = ref("T", "P", p2, "S", s, name)
            if not triv("T_min", name) + 1 < T2 < triv("T_max", name):
                raise Skip
            got = call(fn, p, h, p2)
            cmp_(got, exp, 1e-7, hs, fn, case, r)
        else:
            if eng != "pyromat-ig":
                T2 = ref("T", "P", p2, "S", r["s"], name)
                if not 275 < T2 < 1000:
                    raise Skip
            elif not 250 < T * case["p2"] ** 0.3 < 1500:
                raise Skip
            if eng == "iapws95" and p2 < 1.1 * p:
                raise Skip      # iapws: two phase p-s states
            got = call(fn, p, h, p2)
            cmp_(call("s_mix_ph", p2, got), s, 1e-5, 1.5, "isentropic change",
                 case, r)
            require((got - h) * (p2 - p) >= -1e-3 * abs(got - h),
                    "isentropic compression lowers the enthalpy")
    elif fn == "Q_mix_ph":
        got = call(fn, p, h)
        if eng in ("pyromat", "iapws95") and r["reg"] != "tp":
            raise Skip      # sentinel values of these libraries
        exp = {"l": 0, "g": 1}.get(r["reg"], r.get("Q"))
        cmp_(got, exp, 0, 5e-3 if foreign else 1e-6, fn, case, r)
    elif fn == "phase_mix_ph":
        got = call(fn, p, h)
        if eng == "iapws95" and r["reg"] == "g":
            raise Skip      # iapws reports vapour as liquid
        require(got == r["reg"], "phase %s, expected %s" % (got, r["reg"]),
                "%s:phase" % eng)
    elif fn == "h_mix_pQ":
        q = r.get("Q", 0.25)
        cmp_(call(fn, p, q), ref("H", "P", p, "Q", q, name), tol, hs, fn,
             case, r)
    elif fn == "T_sat_p":
        cmp_(call(fn, p), ref("T", "P", p, "Q", 0, name), 1e-7, Ts, fn, case,
             r)
    elif fn == "p_sat_T":
        if not T < triv("Tcrit", name) * 0.99:
            raise Skip
        if T < triv("Ttriple", name) + 1:
            raise Skip
        cmp_(call(fn, T), ref("P", "T", T, "Q", 0, name),
             5e-3 if foreign else 1e-7, 0, fn, case, r)
    elif fn in ("h_QT", "s_QT", "d_QT"):
        if not triv("Ttriple", name) + 1 < T < triv("Tcrit", name) * 0.985:
            raise Skip
        q = r.get("Q", 0.6)
        exp = ref({"h": "H", "s": "S", "d": "D"}[fn[0]], "T", T, "Q", q, name)
        cmp_(getattr(wr, fn)(q, T), exp, max(tol, 1e-7) * 3,
             {"h": hs, "s": ss, "d": 0}[fn[0]], fn, case, r)
    elif fn in ("dT_mix_pdh", "dT_mix_dph", "dv_mix_dph", "dv_mix_pdh"):
        if foreign:
            raise Skip
        out = "T" if fn.startswith("dT") else "D"

        def g(pp, hh):
            x = ref(out, "P", pp, "H", hh, name)
            return x if out == "T" else 1 / x
        if fn.endswith("pdh"):
            dx = 200.0
            a, b = g(p, h + dx), g(p, h - dx)
            a2, b2 = g(p, h + dx / 2), g(p, h - dx / 2)
        else:
            dx = p * 2e-3
            a, b = g(p + dx, h), g(p - dx, h)
            a2, b2 = g(p + dx / 2, h), g(p - dx / 2, h)
        e1 = (a - b) / (2 * dx)
        e2 = (a2 - b2) / dx
        err = abs(e1 - e2)
        noise = (T * 1e-7 if out == "T" else 1e-8 / r["rho"]) / 0.1
        got = call(fn, p, h)
        cmp_(got, e2, 2e-2, 3 * err + noise, fn, case, r)
        if noise + 3 * err > 0.2 * abs(e2):
            return False
    elif fn in ("dh_mix_dpQ", "dT_sat_dp"):
        if foreign or p > 0.8 * triv("Pcrit", name):
            raise Skip
        dx = p * 1e-3
        q = 0.4
        if fn == "dT_sat_dp":
            def g(pp):
                return ref("T", "P", pp, "Q", 0, name)
            got = call(fn, p)
            noise = T * 1e-8 / 0.01
        else:
            def g(pp):
                return ref("H", "P", pp, "Q", q, name)
            got = call(fn, p, q)
            noise = 1e-2
        e1 = (g(p + dx) - g(p - dx)) / (2 * dx)
        e2 = (g(p + dx / 2) - g(p - dx / 2)) / dx
        cmp_(got, e2, 2e-2, 3 * abs(e1 - e2) + noise, fn, case, r)
        if noise > 0.2 * abs(e2):
            return False
    elif fn == "calc_physical_exergy":
        if foreign or r["reg"] == "sc" and eng == "incomp":
            raise Skip
        Ta, pa = 295.0, 1e5
        if eng == "incomp":
            if not triv("T_min", name) + 2 < Ta < triv("T_max", name) - 5:
                raise Skip
        try:
            h1, s1 = P("H", "P", p, "T", Ta, name), P("S", "P", p, "T", Ta,
                                                      name)
            h0, s0 = P("H", "P", pa, "T", Ta, name), P("S", "P", pa, "T", Ta,
                                                       name)
        except ValueError:
            raise Skip
        if eng == "incomp" and "[" in name:
            try:
                if Ta < triv("T_freeze", name) + 2:
                    raise Skip
            except ValueError:
                pass
        et, em = call(fn, h, s, p, pa, Ta)
        cmp_(et, (h - h1) - Ta * (s - s1), 1e-6, 2, "thermal exergy", case, r)
        cmp_(em, (h1 - h0) - Ta * (s1 - s0), 1e-6, 2, "mechanical exergy",
             case, r)
    elif fn == "gibbs":
        # dh = T ds + v dp along a step in an arbitrary direction
        if r["reg"] == "tp":
            dh, dp = 2000.0, p * 2e-3
        else:
            dh, dp = 500.0, p * 5e-4
        if foreign:
            dh *= 4
            dp *= 4
        if case["p2"] < 1:
            dp = -dp
        try:
            s1 = call("s_mix_ph", p - dp / 2, h - dh / 2)
            s2 = call("s_mix_ph", p + dp / 2, h + dh / 2)
        except ValueError:
            raise Skip
        v = call("v_mix_ph", p, h)
        Tm = call("T_mix_ph", p, h)
        lhs = Tm * (s2 - s1)
        rhs = dh - v * dp
        cmp_(lhs, rhs, 2e-2 if foreign else 5e-3,
             30 if foreign else 1, "T ds vs dh - v dp", case, r)
    return True
