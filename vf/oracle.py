"""Independent reference: fluid states and documented component parameters.

Nothing in here calls tespy.  Pure fluids are evaluated with CoolProp
directly, mixtures with an own implementation of the documented mixing rules,
component parameters with the formulas of the user documentation.
"""
import math

import CoolProp as CP
from CoolProp.CoolProp import get_aliases

EPS = 1e-6           # mass fractions below are ignored (documented precision)
WATER = set(get_aliases("H2O")) | {"Water"}
_AS = {}
RU = 8.314462618


def AS(name, back_end="HEOS"):
    key = (back_end, name)
    if key not in _AS:
        frac = None
        n = name
        if "[" in n:
            n, frac = n.split("[")
            frac = float(frac.strip("]"))
        a = CP.AbstractState(back_end, n)
        if back_end == "INCOMP" and frac is not None:
            try:
                a.set_volu_fractions([frac])
            except ValueError:
                a.set_mass_fractions([frac])
        _AS[key] = a
    return _AS[key]


def molar_mass(name, back_end="HEOS"):
    return AS(name, back_end).trivial_keyed_output(CP.imolar_mass)


class Fluid:
    """A composition with a mixing rule."""

    def __init__(self, fractions, back_ends=None, rule=None):
        be = back_ends or {}
        self.x = {}
        self.be = {}
        for f, v in fractions.items():
            b = None
            if "::" in f:
                b, f = f.split("::")
            self.x[f] = float(v)
            self.be[f] = be.get(f) or b or "HEOS"
        self.act = [f for f, v in self.x.items() if v > EPS]
        self.rule = rule or "ideal-cond"

    @property
    def pure(self):
        return len(self.act) == 1

    def as_(self):
        f = self.act[0]
        return AS(f, self.be[f])

    def tlim(self):
        lo = max(AS(f, self.be[f]).Tmin() for f in self.act)
        hi = min(AS(f, self.be[f]).Tmax() for f in self.act)
        return lo, hi

    # ----------------------------------------------------- p, T functions
    def _amounts(self, p, T):
        """[(fluid, mass per kg, kind, partial pressure)]"""
        if self.rule == "incompressible":
            return [(f, self.x[f], "pT", p) for f in self.act]
        n = {f: self.x[f] / molar_mass(f, self.be[f]) for f in self.act}
        # fluids below the precision still count for the molar fractions
        for f, v in self.x.items():
            if f not in n and v > 0:
                n[f] = v / molar_mass(f, self.be[f])
        tot = sum(n.values())
        w = [f for f in self.act if f in WATER]
        if self.rule == "ideal-cond" and w:
            w = w[0]
            a = AS(w, self.be[w])
            if T < a.T_critical():
                a.update(CP.QT_INPUTS, 0, T)
                ps = a.p()
                if p * n[w] / tot > ps:
                    dry = tot - n[w]
                    nwg = dry * ps / (p - ps)
                    M = molar_mass(w, self.be[w])
                    out = []
                    for f in self.act:
                        if f == w:
                            out.append((f, nwg * M, "vap", ps))
                            out.append((f, self.x[f] - nwg * M, "liq", ps))
                        else:
                            out.append((f, self.x[f], "pT",
                                        p * n[f] / (dry + nwg)))
                    return out
        return [(f, self.x[f], "pT", p * n[f] / tot) for f in self.act]

    def _upd(self, f, kind, pp, T):
        a = AS(f, self.be[f])
        if kind == "vap":
            a.update(CP.QT_INPUTS, 1, T)
        elif kind == "liq":
            a.update(CP.QT_INPUTS, 0, T)
        else:
            a.update(CP.PT_INPUTS, pp, T)
        return a

    def condensing(self, p, T):
        return (not self.pure) and any(k == "liq"
                                       for _, _, k, _ in self._amounts(p, T))

    def h_pT(self, p, T):
        if self.pure:
            a = self.as_()
            a.update(CP.PT_INPUTS, p, T)
            return a.hmass()
        return sum(m * self._upd(f, k, pp, T).hmass()
                   for f, m, k, pp in self._amounts(p, T))

    def s_pT(self, p, T):
        if self.pure:
            a = self.as_()
            a.update(CP.PT_INPUTS, p, T)
            return a.smass()
        return sum(m * self._upd(f, k, pp, T).smass()
                   for f, m, k, pp in self._amounts(p, T))

    def v_pT(self, p, T):
        if self.pure:
            a = self.as_()
            a.update(CP.PT_INPUTS, p, T)
            return 1 / a.rhomass()
        am = self._amounts(p, T)
        if self.rule == "incompressible":
            return sum(m / self._upd(f, k, pp, T).rhomass()
                       for f, m, k, pp in am)
        # gases share the volume: the densities at the partial pressures add
        gas = sum(m for _, m, k, _ in am if k != "liq")
        rho = sum(self._upd(f, k, pp, T).rhomass()
                  for f, m, k, pp in am if k != "liq")
        v = gas / rho
        for f, m, k, pp in am:
            if k == "liq":
                v += m / self._upd(f, k, pp, T).rhomass()
        return v

    def visc_pT(self, p, T):
        if self.pure:
            a = self.as_()
            a.update(CP.PT_INPUTS, p, T)
            return a.viscosity()
        if self.rule == "incompressible":
            return sum(self.x[f] * self._upd(f, "pT", p, T).viscosity()
                       for f in self.act)
        n = {f: self.x[f] / molar_mass(f, self.be[f]) for f in self.act}
        num = den = 0.0
        for f in self.act:
            b = n[f] * molar_mass(f, self.be[f]) ** 0.5
            den += b
            num += b * self._upd(f, "pT", p, T).viscosity()
        return num / den

    # ----------------------------------------------------- p, h functions
    def _bisect(self, fun, target):
        lo, hi = self.tlim()
        lo += 0.2
        hi -= 0.2
        flo = fhi = None
        for _ in range(60):
            try:
                flo = fun(lo) - target
                break
            except ValueError:
                lo += 2
        for _ in range(200):
            try:
                fhi = fun(hi) - target
                break
            except ValueError:
                hi *= 0.99
        if flo is None or fhi is None or flo * fhi > 0:
            raise ValueError("state out of range")
        from scipy.optimize import brentq
        return brentq(lambda T: fun(T) - target, lo, hi, xtol=1e-11,
                      rtol=1e-14, maxiter=300)

    def T_ph(self, p, h):
        if self.pure:
            a = self.as_()
            a.update(CP.HmassP_INPUTS, h, p)
            return a.T()
        return self._bisect(lambda T: self.h_pT(p, T), h)

    def T_ps(self, p, s):
        if self.pure:
            a = self.as_()
            a.update(CP.PSmass_INPUTS, p, s)
            return a.T()
        return self._bisect(lambda T: self.s_pT(p, T), s)

    def s_ph(self, p, h):
        if self.pure:
            a = self.as_()
            a.update(CP.HmassP_INPUTS, h, p)
            return a.smass()
        return self.s_pT(p, self.T_ph(p, h))

    def v_ph(self, p, h):
        if self.pure:
            a = self.as_()
            a.update(CP.HmassP_INPUTS, h, p)
            return 1 / a.rhomass()
        return self.v_pT(p, self.T_ph(p, h))

    def visc_ph(self, p, h):
        if self.pure:
            a = self.as_()
            a.update(CP.HmassP_INPUTS, h, p)
            return a.viscosity()
        return self.visc_pT(p, self.T_ph(p, h))

    def h_ps(self, p, s):
        if self.pure:
            a = self.as_()
            a.update(CP.PSmass_INPUTS, p, s)
            return a.hmass()
        return self.h_pT(p, self.T_ps(p, s))

    # ------------------------------------------------------- pure two phase
    def incomp(self):
        return self.pure and self.be[self.act[0]] == "INCOMP"

    def p_crit(self):
        return self.as_().p_critical()

    def T_sat(self, p):
        a = self.as_()
        a.update(CP.PQ_INPUTS, p, 0)
        return a.T()

    def p_sat(self, T):
        a = self.as_()
        a.update(CP.QT_INPUTS, 0, T)
        return a.p()

    def h_pQ(self, p, Q):
        a = self.as_()
        a.update(CP.PQ_INPUTS, p, Q)
        return a.hmass()

    def Q_ph(self, p, h):
        """equilibrium vapour quality, clipped to the phase"""
        hl = self.h_pQ(p, 0)
        hg = self.h_pQ(p, 1)
        return min(1.0, max(0.0, (h - hl) / (hg - hl)))


class St:
    """State of a stream."""

    def __init__(self, m, p, h, fl):
        self.m = float(m)
        self.p = float(p)
        self.h = float(h)
        self.fl = fl
        self._c = {}

    def _get(self, k, f):
        if k not in self._c:
            self._c[k] = f()
        return self._c[k]

    @property
    def T(self):
        return self._get("T", lambda: self.fl.T_ph(self.p, self.h))

    @property
    def s(self):
        return self._get("s", lambda: self.fl.s_ph(self.p, self.h)
                         if self.fl.pure else self.fl.s_pT(self.p, self.T))

    @property
    def vol(self):
        return self._get("vol", lambda: self.fl.v_ph(self.p, self.h)
                         if self.fl.pure else self.fl.v_pT(self.p, self.T))

    @property
    def v(self):
        return self.vol * self.m

    @property
    def visc(self):
        return self._get("visc", lambda: self.fl.visc_ph(self.p, self.h)
                         if self.fl.pure else self.fl.visc_pT(self.p, self.T))

    @property
    def subcritical(self):
        return self.fl.pure and not self.fl.incomp() \
            and self.p < self.fl.p_crit() * 0.999

    @property
    def x(self):
        return self._get("x", lambda: self.fl.Q_ph(self.p, self.h))

    @property
    def Tsat(self):
        return self._get("Tsat", lambda: self.fl.T_sat(self.p))

    @property
    def Td_bp(self):
        return self.T - self.Tsat


def state_of(conn):
    """St from a solved tespy connection (reads public values only)."""
    be = {f: conn.fluid.back_end.get(f) for f in conn.fluid.val}
    fl = Fluid(conn.fluid.val, be, conn.mixing_rule)
    return St(conn.m.val_SI, conn.p.val_SI, conn.h.val_SI, fl)


# ------------------------------------------------------------ correlations
def friction_factor(re, ks, d):
    """Documented Darcy friction factor; returns (lambda, branch)."""
    if re <= 2320:
        return 64 / re, "laminar"
    if re * ks / d < 65:
        if re <= 1e4:
            return 0.3164 * re ** -0.25, "blasius"
        if re < 1e6:
            return (1.8 * math.log10(re) - 1.5) ** -2, "hanakov"
        lam = 0.02
        for _ in range(200):
            lam = (2 * math.log10(re * lam ** 0.5) - 0.8) ** -2
        return lam, "prandtl-karman"
    lam = 0.02
    for _ in range(200):
        lam = (-2 * math.log10(2.51 / (re * lam ** 0.5)
                               + ks / (3.71 * d))) ** -2
    return lam, "colebrook"


def dp_darcy(i, o, L, D, ks):
    re = 4 * abs(i.m) / (math.pi * D * (i.visc + o.visc) / 2)
    lam, br = friction_factor(re, ks, D)
    dp = 8 * abs(i.m) * i.m * (i.vol + o.vol) / 2 * L * lam \
        / (math.pi ** 2 * D ** 5)
    return dp, br, re


def dp_hw(i, o, L, D, ksHW):
    v = (i.vol + o.vol) / 2
    dp = 10.67 * abs(i.m) ** 1.852 * L / (ksHW ** 1.852 * D ** 4.871) \
        * 9.81 * v ** 0.852
    return math.copysign(dp, i.m)


def zeta(i, o):
    return (i.p - o.p) * math.pi ** 2 / (
        8 * abs(i.m) * i.m * (i.vol + o.vol) / 2)


def log_mean(a, b):
    if a <= 0 or b <= 0:
        return float("nan")
    if abs(a - b) < 1e-9 * max(a, b):
        return (a + b) / 2
    return (a - b) / math.log(a / b)


def eta_s_comp(i, o):
    hs = i.fl.h_ps(o.p, i.s)
    return (hs - i.h) / (o.h - i.h)


def eta_s_turb(i, o):
    hs = i.fl.h_ps(o.p, i.s)
    return (o.h - i.h) / (hs - i.h)


# ------------------------------------------------------ component results
def simple_he(i, o, g):
    r = {"Q": i.m * (o.h - i.h), "pr": o.p / i.p}
    if i.m > 1e-3:
        r["zeta"] = zeta(i, o)
    return r


def hx(i, o, condenser=False):
    r = {"Q": i[0].m * (o[0].h - i[0].h)}
    Thi = i[0].Tsat if condenser else i[0].T
    r["ttd_u"] = Thi - o[1].T
    r["ttd_l"] = o[0].T - i[1].T
    r["ttd_min"] = min(r["ttd_u"], r["ttd_l"])
    for k in range(2):
        r["pr%d" % (k + 1)] = o[k].p / i[k].p
        r["dp%d" % (k + 1)] = i[k].p - o[k].p
        if i[k].m > 1e-3:
            r["zeta%d" % (k + 1)] = zeta(i[k], o[k])
    if r["ttd_u"] > 1e-3 and r["ttd_l"] > 1e-3:
        r["td_log"] = log_mean(r["ttd_u"], r["ttd_l"])
        r["kA"] = -r["Q"] / r["td_log"]
    try:
        dh = o[0].fl.h_pT(o[0].p, i[1].T) - i[0].h
        r["eff_hot"] = (o[0].h - i[0].h) / dh
    except ValueError:
        pass
    try:
        dh = o[1].fl.h_pT(o[1].p, i[0].T) - i[1].h
        r["eff_cold"] = (o[1].h - i[1].h) / dh
    except ValueError:
        pass
    if "eff_hot" in r and "eff_cold" in r:
        r["eff_max"] = max(r["eff_hot"], r["eff_cold"])
    return r


def turbo(i, o, kind):
    r = {"P": i.m * (o.h - i.h), "pr": o.p / i.p}
    try:
        r["eta_s"] = eta_s_turb(i, o) if kind == "turbine" \
            else eta_s_comp(i, o)
    except (ValueError, ZeroDivisionError):
        pass
    return r


SIMPLE = ("SimpleHeatExchanger", "HeatExchangerSimple", "Pipe",
          "SolarCollector", "ParabolicTrough")
HX = ("HeatExchanger", "MovingBoundaryHeatExchanger", "Desuperheater",
      "Condenser")


def results(cls, i, o, given=None):
    """Expected result parameters of a component from its states."""
    g = given or {}
    if cls == "Valve":
        r = {"pr": o[0].p / i[0].p}
        if i[0].m > 1e-3:
            r["zeta"] = zeta(i[0], o[0])
        return r
    if cls in SIMPLE:
        r = simple_he(i[0], o[0], g)
        Tamb = g.get("Tamb")
        if Tamb is not None and cls in ("SimpleHeatExchanger", "Pipe",
                                        "HeatExchangerSimple"):
            a, b = i[0].T - Tamb, o[0].T - Tamb
            if a * b > 0 and abs(a) > 1e-3 and abs(b) > 1e-3:
                r["kA"] = abs(r["Q"] / log_mean(abs(a), abs(b)))
        if cls in ("SolarCollector", "ParabolicTrough") and g.get("E") \
                and g.get("A"):
            r["Q_loss"] = r["Q"] - g["E"] * g["A"]
        return r
    if cls in HX:
        return hx(i, o, cls == "Condenser")
    if cls in ("Pump", "Compressor"):
        return turbo(i[0], o[0], "comp")
    if cls in ("Turbine", "SteamTurbine"):
        return turbo(i[0], o[0], "turbine")
    return {}


def moving_boundary(i, o):
    """UA and pinch of a counter current exchanger split at phase changes.

    Pressures are the inlet pressures of both sides (constant pressure is a
    documented assumption).
    """
    hot_p, cold_p = i[0].p, i[1].p
    mh, mc = i[0].m, i[1].m

    def steps(a, b, p, fl):
        lo, hi = min(a, b), max(a, b)
        pts = [lo, hi]
        if fl.pure and not fl.incomp() and p < fl.p_crit():
            for q in (0, 1):
                hq = fl.h_pQ(p, q)
                if lo < hq < hi:
                    pts.append(hq)
        return sorted(pts)
    Q = {0.0, mh * (i[0].h - o[0].h)}
    for h in steps(i[0].h, o[0].h, o[0].p, i[0].fl):
        Q.add(mh * (h - o[0].h))
    for h in steps(i[1].h, o[1].h, i[1].p, i[1].fl):
        Q.add(mc * (h - i[1].h))
    Q = sorted(Q)
    th = [i[0].fl.T_ph(hot_p, o[0].h + q / mh) for q in Q]
    tc = [i[1].fl.T_ph(cold_p, i[1].h + q / mc) for q in Q]
    td = [a - b for a, b in zip(th, tc)]
    UA = 0.0
    for j in range(len(Q) - 1):
        UA += (Q[j + 1] - Q[j]) / log_mean(abs(td[j]), abs(td[j + 1]))
    return {"UA": UA, "td_pinch": min(td)}


# ---------------------------------------------------------- combustion ----
FUELS = {  # formation enthalpy in kJ/mol, C, H
    "CH4": (-74.6, 1, 4), "butane": (-125.7, 4, 10), "H2": (0.0, 0, 2),
    "nDodecane": (-289.4, 12, 26),
    "methane": (-74.6, 1, 4), "hydrogen": (0.0, 0, 2),
    "propane": (-103.8, 3, 8), "ethane": (-84.0, 2, 6),
}
HF_CO2, HF_H2O = -393.51, -241.826
T_REF, P_REF = 298.15, 1e5


def lhv(f):
    hf, c, h = FUELS[f]
    return -(h / 2 * HF_H2O + c * HF_CO2 - hf) / molar_mass(f) * 1e3


def h_ref(fl):
    """Enthalpy at the reference state with water as saturated vapour."""
    x = {f: v for f, v in fl.x.items() if v > EPS}
    n = {f: v / molar_mass(f) for f, v in fl.x.items() if v > 0}
    tot = sum(n.values())
    h = 0.0
    for f, v in x.items():
        a = AS(f)
        pp = P_REF * n[f] / tot
        if f == "H2O":
            a.update(CP.QT_INPUTS, 1, T_REF)
            if pp < a.p():
                a.update(CP.PT_INPUTS, pp, T_REF)
        else:
            a.update(CP.PT_INPUTS, pp, T_REF)
        h += v * a.hmass()
    return h


def burn(streams):
    """[(m, composition)] -> (mass flows per species, lambda, TI)"""
    sp = {}
    for m, x in streams:
        for f, v in x.items():
            sp[f] = sp.get(f, 0.0) + m * v
    o2 = sp.get("O2", 0.0) / molar_mass("O2")
    need = 0.0
    for f, v in sp.items():
        if f in FUELS:
            _, c, h = FUELS[f]
            need += v / molar_mass(f) * (c + h / 4)
    lam = o2 / need
    share = min(1.0, lam)
    out = dict(sp)
    ti = 0.0
    for f, v in sp.items():
        if f in FUELS:
            _, c, h = FUELS[f]
            n = v / molar_mass(f) * share
            out[f] -= v * share
            out["O2"] = out.get("O2", 0) - n * (c + h / 4) * molar_mass("O2")
            out["CO2"] = out.get("CO2", 0) + n * c * molar_mass("CO2")
            out["H2O"] = out.get("H2O", 0) + n * h / 2 * molar_mass("H2O")
            ti += v * share * lhv(f)
    return out, lam, ti


E0 = 286000.0 * 2 / 2        # J per mol hydrogen (documented)


def e0_h2():
    return E0 / molar_mass("H2")


def h_std(st):
    """Enthalpy above the reference state of a pure stream."""
    return st.h - st.fl.h_pT(P_REF, T_REF)
