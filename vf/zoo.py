"""Generators of plant models with an independently computed solution.

Every template first draws a *solution* (all states, from CoolProp) and then
chooses which quantities of it are handed to tespy as specifications, so the
expected result of the solve is known without tespy.
"""
import math

from vf.core import Reject
from vf.oracle import Fluid, St, dp_darcy, dp_hw, eta_s_comp, eta_s_turb, \
    hx as hx_results, log_mean, zeta

# ------------------------------------------------------------ fluids ------
GASES = [{"air": 1}, {"N2": 1}, {"CO2": 1}, {"CH4": 1}, {"O2": 1},
         {"Ar": 1}]
MIXES = [
    {"N2": 0.7552, "O2": 0.2314, "Ar": 0.0129, "CO2": 0.0005},
    {"N2": 0.77, "O2": 0.23},
    {"CH4": 0.8, "CO2": 0.2},
    {"N2": 0.72, "O2": 0.13, "CO2": 0.08, "H2O": 0.07},
    {"H2": 0.1, "CH4": 0.9},
]
HUMID = [{"N2": 0.6, "O2": 0.2, "H2O": 0.2},
         {"N2": 0.5, "CO2": 0.15, "O2": 0.1, "water": 0.25}]
TWOPHASE = [{"water": 1}, {"R134a": 1}, {"NH3": 1}, {"R1234yf": 1},
            {"isobutane": 1}]
INCOMP = [{"INCOMP::Water": 1}, {"INCOMP::MEG[0.25]": 1},
          {"INCOMP::T66": 1}]
RANGE = {  # saturation temperature window and superheat for two phase fluids
    "water": (330, 520), "R134a": (260, 340), "NH3": (260, 350),
    "R1234yf": (260, 335), "isobutane": (265, 370),
}


def clean(x):
    return float("%.12g" % x)


class Model:
    """Collects a spec and its expected solution."""

    def __init__(self, tpl):
        self.tpl = tpl
        self.comps = []
        self.cidx = {}
        self.conns = []
        self.kidx = {}
        self.truth = {}
        self.expect = {}
        self.busses = []
        self.udes = []
        self.info = {}

    def comp(self, label, cls, **kw):
        self.comps.append([label, cls, dict(kw)])
        self.cidx[label] = self.comps[-1]
        return label

    def conn(self, label, s, so, t, ti, st, **kw):
        self.conns.append([label, s, so, t, ti, dict(kw)])
        self.kidx[label] = self.conns[-1]
        self.truth[label] = st
        return label

    def set_comp(self, label, **kw):
        self.cidx[label][2].update(kw)

    def set_conn(self, label, **kw):
        self.kidx[label][5].update(kw)

    def starting_values(self, d, noise=0.03, keys=("m", "p", "h")):
        """Starting values close to, but not at, the solution."""
        for lab, st in self.truth.items():
            par = self.kidx[lab][5]
            if "m" in keys:
                par["m0"] = clean(st.m * (1 + noise * d.float(-1, 1, 20)))
            if "p" in keys:
                par["p0"] = clean(st.p * (1 + noise * d.float(-1, 1, 20)))
            if "h" in keys:
                par["h0"] = clean(st.h + 5e3 * d.float(-1, 1, 20))

    def exact_start(self):
        for lab, st in self.truth.items():
            self.kidx[lab][5].update(m0=clean(st.m), p0=clean(st.p),
                                     h0=clean(st.h))

    def case(self):
        spec = {"comps": self.comps, "conns": self.conns}
        if self.busses:
            spec["busses"] = self.busses
        if self.udes:
            spec["udes"] = self.udes
        truth = {k: [clean(s.m), clean(s.p), clean(s.h)]
                 for k, s in self.truth.items()}
        return {"tpl": self.tpl, "spec": spec, "truth": truth,
                "expect": self.expect, "info": self.info}


# --------------------------------------------------------- state helpers --
def draw_two_phase_fluid(d):
    f = d.choice(TWOPHASE)
    return f, list(f)[0]


def liquid_state(d, name, fl):
    lo, hi = RANGE[name]
    Ts = d.float(lo, hi, 200)
    p = clean(fl.p_sat(Ts))
    T = max(Ts - d.float(4, 50, 100), fl.tlim()[0] + 8)
    if T > Ts - 2:
        T = Ts - 3
    return p, fl.h_pT(p, T)


def gas_state(d, name, fl):
    lo, hi = RANGE[name]
    Ts = d.float(lo, hi, 200)
    p = clean(fl.p_sat(Ts))
    T = Ts + d.float(4, 80, 100)
    return p, fl.h_pT(p, T)


def wet_state(d, name, fl):
    lo, hi = RANGE[name]
    Ts = d.float(lo, hi, 200)
    p = clean(fl.p_sat(Ts))
    return p, fl.h_pQ(p, d.float(0.05, 0.95, 90))


def phase(st):
    """'l', 'g', 'tp', 'sc' (supercritical) or 'mix'"""
    if not st.fl.pure:
        return "mix"
    if st.fl.incomp():
        return "l"
    if st.p >= st.fl.p_crit() * 0.98:
        return "sc"
    hl, hg = st.fl.h_pQ(st.p, 0), st.fl.h_pQ(st.p, 1)
    if st.h <= hl:
        return "l"
    if st.h >= hg:
        return "g"
    return "tp"


def near_sat(st, dT=1.5):
    if not st.fl.pure or st.fl.incomp():
        return False
    if st.p >= st.fl.p_crit() * 0.98:
        return True
    if phase(st) == "tp":
        return True
    return abs(st.T - st.Tsat) < dT


def state_options(st, refs=(), m_ok=False):
    """Ways to fix the enthalpy of a connection whose pressure is known.

    refs: [(label, St)] usable for references.
    """
    out = [{"h": st.h}]
    ph = phase(st)
    if ph in ("l", "g", "mix", "sc"):
        if ph == "mix" or ph == "sc" or not near_sat(st):
            out.append({"T": st.T})
            out.append({"T": st.T})
    if ph in ("l", "g") and not st.fl.incomp() and not near_sat(st):
        out.append({"Td_bp": st.Td_bp})
    if ph == "tp":
        out.append({"x": st.x})
    for lab, r in refs:
        if ph != "tp" and not near_sat(st) and not near_sat(r):
            f = 1.0
            out.append({"T": {"ref": [lab, f, clean(st.T - f * r.T)]}})
        out.append({"h": {"ref": [lab, 1.0, clean(st.h - r.h)]}})
    return out


# ------------------------------------------------------------ chain -------
def chain(d, max_len=3, kinds=None, allow_mix=True, friction=True,
          anchor_any=True, min_len=1):
    """Source -> components -> Sink with arbitrary specification choice."""
    mo = Model("chain")
    r = d.int(0, 9)
    if r <= 4:
        f, name = draw_two_phase_fluid(d)
        fl = Fluid(f)
        k = d.choice(["l", "g", "l", "g", "tp"])
        p, h = {"l": liquid_state, "g": gas_state, "tp": wet_state}[k](
            d, name, fl)
    elif r <= 6:
        f = d.choice(GASES)
        fl = Fluid(f)
        k = "gas"
        p = d.log(1e5, 3e6, 100)
        h = fl.h_pT(p, d.float(300, 800, 200))
    elif r <= 8 and allow_mix:
        f = d.choice(MIXES + HUMID)
        fl = Fluid(f)
        k = "gas"
        p = d.log(1e5, 2e6, 100)
        if f in HUMID:
            # colder than the dew point: water condenses partially
            h = fl.h_pT(p, d.float(305, 345, 100))
        else:
            h = fl.h_pT(p, d.float(420, 900, 200))
    else:
        f = d.choice(INCOMP)
        fl = Fluid(f)
        k = "inc"
        p = d.log(1e5, 2e6, 100)
        h = fl.h_pT(p, d.float(290, 350, 100))
    m = d.log(0.01, 100, 300)
    n = d.int(min_len, max_len)
    st = St(m, p, h, fl)
    mo.info["fluid"] = list(f)
    mo.comp("source", "Source")
    prev, prev_port = "source", "out1"
    steps = []
    seq = [st]
    for j in range(n):
        cls, o, extra = chain_step(d, seq[-1], kinds, friction)
        steps.append((cls, "k%d" % (j + 1), extra))
        seq.append(o)
    for j, (cls, lab, extra) in enumerate(steps):
        mo.comp(lab, cls)
        mo.conn("c%d" % j, prev, prev_port, lab, "in1", seq[j])
        prev, prev_port = lab, "out1"
    mo.comp("sink", "Sink")
    mo.conn("c%d" % n, prev, prev_port, "sink", "in1", seq[n])
    mo.set_conn("c0", fluid=f)

    # --- specification choice
    # pressure anchor
    a = d.int(0, n) if anchor_any and d.bool(35) else 0
    mo.set_conn("c%d" % a, p=seq[a].p)
    e = 0
    if anchor_any and d.bool(25):
        e = d.int(0, n)
    mo.info["anchor"] = [a, e]
    mo.set_conn("c%d" % e, **_plain(d.choice(state_options(seq[e]))))
    # mass flow
    m_comp = None
    cand = [j for j, (c, l, x) in enumerate(steps)
            if c in ("Pump", "Compressor", "Turbine", "SimpleHeatExchanger",
                     "Pipe") and abs(seq[j + 1].h - seq[j].h) > 500]
    if cand and d.bool(25):
        m_comp = d.choice(cand)
        cls, lab, _ = steps[m_comp]
        val = m * (seq[m_comp + 1].h - seq[m_comp].h)
        mo.set_comp(lab, **{("P" if cls in ("Pump", "Compressor", "Turbine")
                             else "Q"): val})
    else:
        c = d.int(0, n)
        if d.bool(30):
            mo.set_conn("c%d" % c, v=seq[c].v)
        else:
            mo.set_conn("c%d" % c, m=m)
    # relation specs per component
    for j, (cls, lab, x) in enumerate(steps):
        i, o = seq[j], seq[j + 1]
        conn_i, conn_o = "c%d" % j, "c%d" % (j + 1)
        # which side of the component has a known pressure
        known, unknown = (conn_i, conn_o) if a <= j else (conn_o, conn_i)
        ku, kk = (o, i) if a <= j else (i, o)
        if cls == "SubsystemInterface":
            continue
        opts = [("comp", {"pr": o.p / i.p}), ("comp", {"pr": o.p / i.p}),
                ("conn", unknown, {"p": ku.p}),
                ("conn", unknown, {"p": {"ref": [known, clean(ku.p / kk.p),
                                                 0.0]}}),
                ("conn", unknown, {"p": {"ref": [
                    known, 0.5, clean(ku.p - 0.5 * kk.p)]}})]
        if cls in ("Valve", "SimpleHeatExchanger", "Pipe", "SolarCollector",
                   "ParabolicTrough") and i.p - o.p > 10:
            opts.append(("comp", {"zeta": zeta(i, o)}))
        if x.get("friction") == "darcy":
            opts = [("comp", {"L": x["L"], "D": x["D"], "ks": x["ks"]})]
            if d.bool(25):
                k = d.choice(["D", "L"])
                opts = [("comp", {"pr": o.p / i.p, "L": x["L"], "D": x["D"],
                                  "ks": x["ks"],
                                  k: {"start": clean(x[k] * 1.1)}})]
                mo.expect["%s.%s" % (lab, k)] = x[k]
        elif x.get("friction") == "hw":
            opts = [("comp", {"L": x["L"], "D": x["D"], "ks_HW": x["ks"]})]
            if d.bool(25):
                k = d.choice(["D", "L"])
                opts = [("comp", {"pr": o.p / i.p, "L": x["L"], "D": x["D"],
                                  "ks_HW": x["ks"],
                                  k: {"start": clean(x[k] * 1.1)}})]
                mo.expect["%s.%s" % (lab, k)] = x[k]
        _apply(mo, lab, d.choice(opts))
        # enthalpy
        if cls == "Valve":
            continue
        hk, hu = (conn_i, conn_o) if e <= j else (conn_o, conn_i)
        su, sk = (o, i) if e <= j else (i, o)
        opts = [("conn", hu, c) for c in state_options(su, [(hk, sk)])]
        if m_comp != j:
            if cls in ("Pump", "Compressor"):
                opts += [("comp", {"eta_s": x["eta_s"]})] * 3
                opts.append(("comp", {"P": m * (o.h - i.h)}))
            elif cls == "Turbine":
                opts += [("comp", {"eta_s": x["eta_s"]})] * 3
                opts.append(("comp", {"P": m * (o.h - i.h)}))
            elif cls in ("SimpleHeatExchanger", "Pipe"):
                opts += [("comp", {"Q": m * (o.h - i.h)})] * 2
                if "kA" in x:
                    opts += [("comp", {"kA": x["kA"], "Tamb": x["Tamb"]})] * 2
            elif cls in ("SolarCollector", "ParabolicTrough"):
                opts = [("comp", dict(x["solar"]))]
                if d.bool(30):
                    k = d.choice(["E", "A"])
                    v = dict(x["solar"])
                    mo.expect["%s.%s" % (lab, k)] = v[k]
                    v[k] = {"start": clean(v[k] * 0.9)}
                    v["Q"] = m * (o.h - i.h)
                    opts = [("comp", v)]
        else:
            if cls in ("Pump", "Compressor", "Turbine"):
                opts += [("comp", {"eta_s": x["eta_s"]})] * 3
        ch = d.choice(opts)
        mo.info.setdefault("h_spec", []).append(
            [cls, sorted(ch[-1])])
        _apply(mo, lab, ch)
    # starting values
    if d.bool(75):
        mo.starting_values(d)
        mo.info["start"] = "near"
    else:
        mo.info["start"] = "default"
    return mo


def _plain(x):
    return {k: (clean(v) if isinstance(v, float) else v)
            for k, v in x.items()}


def _apply(mo, lab, ch):
    if ch[0] == "comp":
        mo.set_comp(lab, **_plain(ch[1]))
    else:
        mo.set_conn(ch[1], **_plain(ch[2]))


def chain_step(d, i, kinds, friction):
    """Draw one component and its outlet state."""
    fl = i.fl
    ph = phase(i)
    inc = fl.incomp()
    opts = ["Valve", "SimpleHeatExchanger", "Pipe"]
    if ph == "l":
        opts += ["Pump", "Pump"]
        if i.T < 400:
            opts += ["SolarCollector", "ParabolicTrough"]
    elif ph in ("g", "mix", "sc"):
        opts += ["Compressor", "Turbine", "Compressor", "Turbine"]
    if kinds:
        opts = [o for o in opts if o in kinds] or ["SimpleHeatExchanger"]
    cls = d.choice(opts)
    x = {}
    if cls == "Valve":
        for _ in range(4):
            pr = d.float(0.4, 0.98, 100)
            o = St(i.m, i.p * pr, i.h, fl)
            if _ok(o):
                return cls, o, x
        raise Reject("valve")
    if cls == "Pump":
        pr = d.float(1.5, 12, 100)
        eta = d.float(0.5, 0.95, 45)
        p = i.p * pr
        if not inc and p > fl.p_crit() * 0.6:
            p = max(i.p * 1.2, fl.p_crit() * 0.6)
        if p > 5e7:
            raise Reject("p")
        hs = fl.h_ps(p, i.s)
        o = St(i.m, p, i.h + (hs - i.h) / eta, fl)
        x["eta_s"] = eta
        _need(o)
        return cls, o, x
    if cls == "Compressor":
        pr = d.float(1.2, 4, 100)
        eta = d.float(0.5, 0.95, 45)
        p = i.p * pr
        hs = fl.h_ps(p, i.s)
        o = St(i.m, p, i.h + (hs - i.h) / eta, fl)
        x["eta_s"] = eta
        _need(o)
        if phase(o) == "tp" or near_sat(o):
            raise Reject("wet compression")
        return cls, o, x
    if cls == "Turbine":
        pr = d.float(0.25, 0.9, 100)
        eta = d.float(0.5, 0.95, 45)
        p = i.p * pr
        hs = fl.h_ps(p, i.s)
        o = St(i.m, p, i.h + (hs - i.h) * eta, fl)
        x["eta_s"] = eta
        _need(o)
        return cls, o, x
    # heat exchanger types: choose target enthalpy change
    if cls in ("SolarCollector", "ParabolicTrough"):
        dT = d.float(3, 30, 50)
        T = i.T + dT
        pr = d.float(0.9, 0.999, 50)
        p = i.p * pr
        h = fl.h_pT(p, T)
        o = St(i.m, p, h, fl)
        if ph == "l" and not inc and (phase(o) != "l" or near_sat(o)):
            raise Reject("boiling")
        Q = i.m * (o.h - i.h)
        Tamb = d.float(270, 310, 40)
        E = d.float(400, 1000, 60)
        Tm = 0.5 * (i.T + o.T)
        if cls == "SolarCollector":
            g = {"E": E, "eta_opt": d.float(0.6, 0.9, 30),
                 "lkf_lin": d.float(0.5, 2, 30),
                 "lkf_quad": d.float(0, 0.01, 20), "Tamb": Tamb}
            q = E * g["eta_opt"] - (Tm - Tamb) * g["lkf_lin"] \
                - g["lkf_quad"] * (Tm - Tamb) ** 2
        else:
            g = {"E": E, "eta_opt": d.float(0.6, 0.9, 30),
                 "c_1": d.float(0.01, 0.5, 30),
                 "c_2": d.float(0, 0.002, 20),
                 "iam_1": d.float(0, 2e-3, 20),
                 "iam_2": d.float(0, 5e-5, 20),
                 "aoi": d.float(-60, 60, 120), "doc": d.float(0.7, 1, 30),
                 "Tamb": Tamb}
            iam = 1 - g["iam_1"] * abs(g["aoi"]) - g["iam_2"] * g["aoi"] ** 2
            q = E * g["eta_opt"] * g["doc"] ** 1.5 * iam \
                - (Tm - Tamb) * g["c_1"] - g["c_2"] * (Tm - Tamb) ** 2
        if q < 50:
            raise Reject("no gain")
        g["A"] = clean(Q / q)
        x["solar"] = g
        return cls, o, x
    # SimpleHeatExchanger / Pipe
    fr = None
    if friction and ph in ("l", "g", "mix") and d.bool(30):
        try:
            i.visc
            fr = d.choice(["darcy", "darcy", "hw"])
        except ValueError:
            fr = None
    lo, hi = fl.tlim()
    if ph == "tp" or (fl.pure and not inc and d.bool(20) and ph != "sc"):
        # phase change allowed: choose an enthalpy
        p0 = i.p * d.float(0.93, 0.999, 50)
        hl, hg = fl.h_pQ(p0, 0), fl.h_pQ(p0, 1)
        q = d.float(-0.15, 1.15, 130)
        h = hl + q * (hg - hl)
        fr = None
        o = St(i.m, p0, h, fl)
    else:
        dT = d.float(5, 60, 100) * (1 if d.bool() else -1)
        T = i.T + dT
        if not fl.pure:
            T = max(T, 410)
        T = min(max(T, lo + 15), hi - 15)
        pr = d.float(0.9, 0.999, 50)
        p0 = i.p * pr
        if fl.pure and not inc and ph != "sc":
            Ts = fl.T_sat(p0)
            if ph == "l":
                T = min(T, Ts - 3)
            elif ph == "g":
                T = max(T, Ts + 3)
        o = St(i.m, p0, fl.h_pT(p0, T), fl)
        if fr:
            o = _friction(d, i, T, fr, x)
    _need(o)
    if abs(o.h - i.h) < 300:
        raise Reject("no heat")
    Ti, To = i.T, o.T
    side = d.bool()
    Tamb = (min(Ti, To) - d.float(5, 40, 35)) if (o.h < i.h) \
        else (max(Ti, To) + d.float(5, 40, 35))
    Tamb = clean(Tamb)
    del side
    if phase(o) != "tp" and phase(i) != "tp":
        aa, bb = abs(Ti - Tamb), abs(To - Tamb)
        x["Tamb"] = Tamb
        x["kA"] = clean(abs(i.m * (o.h - i.h)) / log_mean(aa, bb))
    return cls, o, x


def _friction(d, i, T, fr, x):
    """Outlet state for given geometry at outlet temperature T."""
    # choose the geometry from velocity so that the pressure drop is moderate
    w = d.log(0.3, 3, 50) if phase(i) == "l" else d.log(3, 25, 50)
    D = clean(math.sqrt(4 * i.m * i.vol / (math.pi * w)))
    if not 0.005 < D < 3:
        raise Reject("diameter")
    L = d.log(1, 300, 60)
    ks = d.log(1e-6, 5e-4, 60) if fr == "darcy" else d.float(60, 150, 90)
    x.update(friction=fr, L=L, D=D, ks=ks)
    p = i.p
    for _ in range(60):
        o = St(i.m, p, i.fl.h_pT(p, T), i.fl)
        if fr == "darcy":
            dp, br, re = dp_darcy(i, o, L, D, ks)
        else:
            dp = dp_hw(i, o, L, D, ks)
        pn = i.p - dp
        if pn < 0.5 * i.p:
            raise Reject("pressure drop")
        if abs(pn - p) < 1e-9 * p:
            break
        p = pn
    if dp < 5:
        raise Reject("dp too small")
    o = St(i.m, p, i.fl.h_pT(p, T), i.fl)
    if phase(o) != phase(i):
        raise Reject("phase")
    return o


def _ok(o):
    try:
        lo, hi = o.fl.tlim()
        T = o.T
        if not (lo + 10 < T < hi - 10):
            return False
        if o.fl.pure and not o.fl.incomp():
            if o.p < 1.5 * max(o.fl.as_().p_triple() if hasattr(
                    o.fl.as_(), "p_triple") else 1e3, 1.0):
                return False
            ph = phase(o)
            if ph == "sc":
                return False
        return True
    except ValueError:
        return False


def _need(o):
    if not _ok(o):
        raise Reject("state")


# ------------------------------------------------------- heat exchanger ---
def _hot_stream(d, kind):
    """(fluid, p, h_in, p_out, h_out) of a stream that gives off heat"""
    if kind == "gas":
        f = d.choice(GASES + MIXES[:4] + HUMID)
        fl = Fluid(f)
        p = d.log(1e5, 2e6, 60)
        Ti = d.float(480, 850, 100)
        To = Ti - d.float(20, Ti - 440, 60)
        if f in HUMID and d.bool(60):
            To = d.float(308, 350, 40)      # flue gas condensation
        po = p * d.float(0.93, 1.0, 35)
        return f, fl, p, fl.h_pT(p, Ti), po, fl.h_pT(po, To)
    if kind == "liq":
        f = d.choice([{"water": 1}, {"INCOMP::Water": 1}])
        fl = Fluid(f)
        p = d.log(4e5, 3e6, 60)
        Ti = d.float(345, 410, 60)
        if f.get("INCOMP::Water"):
            Ti = min(Ti, 380.0)
        To = Ti - d.float(10, Ti - 325, 60)
        po = p * d.float(0.93, 1.0, 35)
        return f, fl, p, fl.h_pT(p, Ti), po, fl.h_pT(po, To)
    # condensing / desuperheating
    name = d.choice(["water", "R134a", "NH3", "R1234yf", "isobutane"])
    f = {name: 1}
    fl = Fluid(f)
    lo, hi = {"water": (350, 500), "R134a": (310, 355), "NH3": (310, 370),
              "R1234yf": (310, 350), "isobutane": (320, 380)}[name]
    Ts = d.float(lo, hi, 100)
    p = clean(fl.p_sat(Ts))
    po = p * (d.float(0.95, 1.0, 25) if kind != "mb" else 1.0)
    q = d.int(0, 2)
    if kind == "desup" or q <= 1:
        hi_ = fl.h_pT(p, Ts + d.float(8, 60, 50))
    else:
        hi_ = fl.h_pQ(p, d.float(0.5, 1.0, 50))
    if kind == "cond":
        ho = fl.h_pQ(po, 0)
    elif kind in ("sub", "mb"):
        ho = fl.h_pT(po, fl.T_sat(po) - d.float(3, 15, 24))
    elif kind == "desup":
        ho = fl.h_pQ(po, 1)
    else:
        raise KeyError(kind)
    return f, fl, p, hi_, po, ho


def heat_exchanger(d):
    """Two sources, one heat exchanger, two sinks."""
    mo = Model("hx")
    cls = d.choice(["HeatExchanger", "HeatExchanger", "HeatExchanger",
                    "Condenser", "Condenser", "Desuperheater",
                    "MovingBoundaryHeatExchanger"])
    sub = False
    if cls == "HeatExchanger":
        kind = d.choice(["gas", "liq", "sub"])
    elif cls == "Condenser":
        sub = d.bool(40)
        kind = "sub" if sub else "cond"
    elif cls == "Desuperheater":
        kind = "desup"
    else:
        kind = d.choice(["mb", "mb", "sub"])
    f1, fl1, p1, hi1, po1, ho1 = _hot_stream(d, kind)
    if cls == "MovingBoundaryHeatExchanger":
        po1 = p1
    m1 = d.log(0.02, 60, 120)
    i1, o1 = St(m1, p1, hi1, fl1), St(m1, po1, ho1, fl1)
    _need(i1)
    _need(o1)
    Thu = i1.Tsat if cls == "Condenser" else i1.T
    # cold stream
    Tci = min(o1.T, Thu) - d.float(4, 30, 26)
    if cls == "Condenser" or kind == "sub":
        Tmax = i1.Tsat - 2
    else:
        Tmax = Thu - 2
    Tco = Tci + d.float(0.15, 0.9, 75) * (Tmax - Tci)
    if Tco - Tci < 1.5:
        raise Reject("cold")
    f2 = d.choice([{"water": 1}, {"water": 1}, {"air": 1},
                   {"INCOMP::Water": 1}, {"N2": 0.77, "O2": 0.23}])
    if Tci < 276 or Tco > 368:
        f2 = d.choice([{"air": 1}, {"N2": 1}])
    if "N2" in f2 and len(f2) > 1 and Tci < 400:
        f2 = {"air": 1}
    fl2 = Fluid(f2)
    p2 = d.log(2e5, 2e6, 60)
    po2 = p2 * (1.0 if cls == "MovingBoundaryHeatExchanger"
                else d.float(0.93, 1.0, 35))
    hi2, ho2 = fl2.h_pT(p2, Tci), fl2.h_pT(po2, Tco)
    m2 = m1 * (hi1 - ho1) / (ho2 - hi2)
    m2 = clean(m2)
    i2, o2 = St(m2, p2, hi2, fl2), St(m2, po2, ho2, fl2)
    _need(i2)
    _need(o2)
    if "water" in f2 and (near_sat(o2) or phase(o2) != "l"):
        raise Reject("boiling")
    r = hx_results([i1, i2], [o1, o2], cls == "Condenser")
    if r["ttd_u"] < 1 or r["ttd_l"] < 1 or m2 < 0.01 or m2 > 3e3:
        raise Reject("ttd")
    for n in ("so1", "so2"):
        mo.comp(n, "Source")
    mo.comp("hx", cls)
    for n in ("si1", "si2"):
        mo.comp(n, "Sink")
    mo.conn("h1", "so1", "out1", "hx", "in1", i1, fluid=f1)
    mo.conn("h2", "hx", "out1", "si1", "in1", o1)
    mo.conn("c1", "so2", "out1", "hx", "in2", i2, fluid=f2)
    mo.conn("c2", "hx", "out2", "si2", "in1", o2)
    if sub:
        mo.set_comp("hx", subcooling=True)
    # pressures
    for a, b, k, si, so in (("h1", "h2", 1, i1, o1), ("c1", "c2", 2, i2, o2)):
        ch = d.int(0, 5)
        x, y, px, py = (a, b, si, so) if d.bool(80) else (b, a, so, si)
        mo.set_conn(x, p=clean(px.p))
        if ch == 0:
            mo.set_conn(y, p=clean(py.p))
        elif ch == 1 and si.p - so.p > 50:
            mo.set_comp("hx", **{"zeta%d" % k: clean(zeta(si, so))})
        elif ch == 2:
            mo.set_comp("hx", **{"dp%d" % k: clean(si.p - so.p)})
        else:
            mo.set_comp("hx", **{"pr%d" % k: clean(so.p / si.p)})
    # inlet states
    _apply(mo, "hx", ("conn", "h1", d.choice(state_options(i1))))
    _apply(mo, "hx", ("conn", "c1", d.choice(state_options(i2))))
    # three (two) of the remaining quantities
    ph1 = phase(o1)
    A = [("conn", "h2", c) for c in state_options(o1, [("h1", i1)])]
    if ph1 != "tp" and not near_sat(o1):
        A += [("comp", {"ttd_l": r["ttd_l"]})] * 2
        if r["ttd_l"] < r["ttd_u"] - 0.5:
            A += [("comp", {"ttd_min": r["ttd_l"]})] * 3
    if "eff_hot" in r and 0.05 < r["eff_hot"] < 0.98:
        A += [("comp", {"eff_hot": r["eff_hot"]})] * 2
        if r["eff_hot"] > r.get("eff_cold", 1) + 0.02:
            A += [("comp", {"eff_max": r["eff_hot"]})] * 3
    B = [("conn", "c2", c) for c in state_options(o2, [("c1", i2)])]
    if not near_sat(o2):
        B += [("comp", {"ttd_u": r["ttd_u"]})] * 2
        if r["ttd_u"] < r["ttd_l"] - 0.5:
            B += [("comp", {"ttd_min": r["ttd_u"]})] * 3
    if "eff_cold" in r and 0.05 < r["eff_cold"] < 0.98:
        B += [("comp", {"eff_cold": r["eff_cold"]})] * 2
        if r["eff_cold"] > r.get("eff_hot", 1) + 0.02:
            B += [("comp", {"eff_max": r["eff_cold"]})] * 3
    opt = {"A": A, "B": B,
           "C": [("conn", "h1", {"m": m1})] * 2 + [("conn", "h1",
                                                    {"v": i1.v})],
           "D": [("conn", "c1", {"m": m2})] * 2 + [("conn", "c1",
                                                    {"v": i2.v})],
           "Q": [("comp", {"Q": r["Q"]})]}
    if cls == "MovingBoundaryHeatExchanger":
        from vf.oracle import moving_boundary
        mb = moving_boundary([i1, i2], [o1, o2])
        if mb["td_pinch"] < 0.5:
            raise Reject("pinch")
        opt["K"] = [("comp", {"UA": mb["UA"]}),
                    ("comp", {"td_pinch": mb["td_pinch"]})]
    else:
        opt["K"] = [("comp", {"kA": r["kA"]})]
    need = 3
    fixed = cls == "Desuperheater" or (cls == "Condenser" and not sub)
    if fixed:
        need = 2
        del opt["A"]
    while True:
        pick = d.subset(sorted(opt), need, need)
        s = set(pick)
        if s == {"A", "C", "Q"} or s == {"B", "D", "Q"}:
            continue
        if fixed and s in ({"C", "Q"}, ):
            continue
        break
    mo.info["pick"] = [cls, kind, "".join(pick)]
    for g in pick:
        _apply(mo, "hx", d.choice(opt[g]))
    mo.starting_values(d)
    mo.info["start"] = "near"
    return mo


# ------------------------------------------------------ splitter / merge --
def split_merge(d):
    """source - splitter - n branches - merge - sink"""
    mo = Model("split")
    if d.bool():
        f, name = draw_two_phase_fluid(d)
        fl = Fluid(f)
        kind = d.choice(["l", "g"])
        p, h = (liquid_state if kind == "l" else gas_state)(d, name, fl)
    else:
        f = d.choice(GASES + MIXES)
        fl = Fluid(f)
        kind = "g"
        p = d.log(1e5, 2e6, 60)
        h = fl.h_pT(p, d.float(430, 700, 100))
    n = d.int(2, 4)
    m = [d.log(0.2, 20, 100) if d.bool(75) else d.log(0.005, 0.2, 50) for _ in range(n)]
    M = clean(sum(m))
    i = St(M, p, h, fl)
    _need(i)
    pr = d.float(0.9, 1.0, 50)
    po = p * pr
    outs = []
    kinds = []
    for j in range(n):
        k = d.choice(["SimpleHeatExchanger", "SimpleHeatExchanger", "Pipe",
                      "Valve"])
        if k == "Valve":
            ho = h
        else:
            dT = d.float(5, 50, 45) * (1 if d.bool() else -1)
            T = i.T + dT
            if not fl.pure:
                T = max(T, 410)
            elif not fl.incomp():
                Ts = fl.T_sat(po) if po < fl.p_crit() * .95 else None
                if Ts and kind == "l":
                    T = min(T, Ts - 3)
                elif Ts:
                    T = max(T, Ts + 3)
            ho = fl.h_pT(po, T)
            if abs(ho - h) < 300:
                k, ho = "Valve", h
        kinds.append(k)
        s = St(m[j], po, ho, fl)
        _need(s)
        outs.append(s)
    hm = sum(s.m * s.h for s in outs) / M
    o = St(M, po, hm, fl)
    _need(o)
    mo.comp("so", "Source")
    mo.comp("sp", "Splitter", **({"num_out": n} if n != 2 or d.bool()
                                 else {}))
    mo.comp("me", "Merge", **({"num_in": n} if n != 2 or d.bool() else {}))
    mo.comp("si", "Sink")
    mo.conn("a0", "so", "out1", "sp", "in1", i, fluid=f)
    for j in range(n):
        b = "b%d" % j
        mo.comp(b, kinds[j])
        mo.conn("i%d" % j, "sp", "out%d" % (j + 1), b, "in1",
                St(m[j], p, h, fl))
        mo.conn("o%d" % j, b, "out1", "me", "in%d" % (j + 1), outs[j])
    mo.conn("z0", "me", "out1", "si", "in1", o)
    # pressure: one known upstream, one relation
    mo.set_conn("a0", p=clean(p))
    x = d.int(0, n)
    if x == n:
        mo.set_conn("z0", p=clean(po))
    else:
        mo.set_comp("b%d" % x, pr=clean(po / p))
    # mass flows: n independent quantities
    names = [("i%d" % j, m[j]) for j in range(n)] + [("a0", M)]
    if d.bool(35):
        # one branch as reference on another one
        a, b = d.int(0, n - 1), d.int(0, n - 1)
        if a != b:
            fct = d.choice([1.0, 0.5, 2.0])
            mo.set_conn("i%d" % a, m={"ref": ["i%d" % b, fct, clean(
                m[a] - fct * m[b])]})
            names = [q for q in names if q[0] != "i%d" % a]
            rest = n - 1
        else:
            rest = n
    else:
        rest = n
    drop = d.int(0, len(names) - 1)
    names = [q for jj, q in enumerate(names) if jj != drop][:rest] \
        if len(names) > rest else names
    for lab, val in names[:rest]:
        st = mo.truth[lab]
        if d.bool(20):
            mo.set_conn(lab, v=clean(st.v))
        else:
            mo.set_conn(lab, m=clean(val))
    # energy
    _apply(mo, "", ("conn", "a0", d.choice(state_options(i))))
    heated = [j for j in range(n) if kinds[j] != "Valve"]
    free = d.choice(heated) if heated and d.bool(40) else None
    for j in heated:
        if j == free:
            continue
        opts = [("conn", "o%d" % j, c) for c in state_options(
            outs[j], [("i%d" % j, i)])]
        opts += [("comp", {"Q": m[j] * (outs[j].h - h)})] * 3
        _apply(mo, "b%d" % j, d.choice(opts))
    if free is not None:
        _apply(mo, "", ("conn", "z0", d.choice(
            [c for c in state_options(o)])))
    mo.starting_values(d)
    mo.info.update(start="near", n=n, fluid=list(f))
    return mo


def mix_merge(d):
    """Streams of different composition are merged."""
    mo = Model("mix")
    n = d.int(2, 3)
    comps = d.subset(["N2", "O2", "CO2", "Ar", "CH4"], 2, 4)
    p = d.log(1e5, 1.5e6, 60)
    streams = []
    for j in range(n):
        w = [d.int(0, 9) for _ in comps]
        if sum(w) == 0 or d.bool(25):
            w = [0] * len(comps)
            w[j % len(comps)] = 1
        tot = sum(w)
        x = {c: float("%.6f" % (v / tot)) for c, v in zip(comps, w)}
        big = max(x, key=x.get)
        x[big] = clean(x[big] + 1 - sum(x.values()))
        m = d.log(0.3, 10, 60) if d.bool(75) else d.log(0.005, 0.3, 50)
        fl = Fluid(x)
        h = fl.h_pT(p, d.float(400, 700, 60))
        streams.append((x, St(m, p, h, fl)))
    M = sum(s.m for _, s in streams)
    xo = {c: clean(sum(x[c] * s.m for x, s in streams) / M) for c in comps}
    o = St(M, p, sum(s.m * s.h for _, s in streams) / M, Fluid(xo))
    _need(o)
    mo.comp("me", "Merge", num_in=n)
    mo.comp("si", "Sink")
    for j, (x, s) in enumerate(streams):
        mo.comp("so%d" % j, "Source")
        mo.conn("i%d" % j, "so%d" % j, "out1", "me", "in%d" % (j + 1), s,
                fluid=x)
    mo.comp("hx", "SimpleHeatExchanger", pr=1.0)
    q = d.float(-5, 5, 20) * 1e4 * M
    o2 = St(M, p, o.h + q / M, o.fl)
    _need(o2)
    mo.conn("z0", "me", "out1", "hx", "in1", o)
    mo.conn("z1", "hx", "out1", "si", "in1", o2)
    mo.set_conn(d.choice(["i%d" % j for j in range(n)] + ["z0", "z1"]),
                p=clean(p))
    _apply(mo, "hx", d.choice([("comp", {"Q": q}), ("conn", "z1",
                                                     {"T": o2.T})]))
    # degrees of freedom: n mass flows + n enthalpies
    spread = max(max(x[c] for x, _ in streams) - min(x[c] for x, _ in
                                                     streams) for c in comps)
    for j, (x, s) in enumerate(streams):
        _apply(mo, "", ("conn", "i%d" % j, d.choice(state_options(s))))
    how = d.int(0, 3)
    lab = ["i%d" % j for j in range(n)]
    drop = d.int(0, n - 1)
    if how == 0:
        pass
    if how == 0 or spread < 0.2:
        for j in range(n):
            mo.set_conn(lab[j], m=clean(streams[j][1].m))
    elif how == 1:
        # total mass flow instead of one of the streams
        for j in range(n):
            if j != drop:
                mo.set_conn(lab[j], m=clean(streams[j][1].m))
        mo.set_conn("z0", m=clean(M))
    elif how == 2:
        for j in range(n):
            if j != drop:
                mo.set_conn(lab[j], m=clean(streams[j][1].m))
        # outlet composition fixes the remaining flow
        rest = {}
        for c in comps:
            other = sum(x[c] * s.m for j, (x, s) in enumerate(streams)
                        if j != drop) / (M - streams[drop][1].m)
            rest[c] = abs(streams[drop][0][c] - other)
        c = max(rest, key=rest.get)
        if rest[c] < 0.15:
            raise Reject("composition")
        mo.set_conn("z0", fluid={c: xo[c]})
    else:
        # outlet temperature fixes the remaining flow
        for j in range(n):
            if j != drop:
                mo.set_conn(lab[j], m=clean(streams[j][1].m))
        To = sum(s.m * s.T for j, (x, s) in enumerate(streams)
                 if j != drop) / (M - streams[drop][1].m)
        if abs(To - streams[drop][1].T) < 40:
            raise Reject("temperature")
        mo.set_conn("z0", T=clean(o.T))
    mo.starting_values(d)
    mo.info.update(start="near", how=how, n=n)
    mo.info["x_out"] = xo
    return mo


def separator(d):
    """A gas mixture is split into streams of different composition."""
    mo = Model("separator")
    p = d.log(1e5, 1e6, 60)
    T = d.float(400, 650, 60)
    a = d.float(0.1, 0.9, 80)
    comps = d.subset(["N2", "O2", "CO2", "Ar"], 2, 2)
    x = {comps[0]: a, comps[1]: clean(1 - a)}
    fl = Fluid(x)
    M = d.log(0.5, 20, 60)
    # outlet 1 is richer in the first component
    y1 = clean(a + (1 - a) * d.float(0.3, 1.0, 70))
    y2 = clean(a * d.float(0.0, 0.7, 70))
    m1 = M * (a - y2) / (y1 - y2)
    m2 = M - m1
    f1 = Fluid({comps[0]: y1, comps[1]: 1 - y1})
    f2 = Fluid({comps[0]: y2, comps[1]: 1 - y2})
    i = St(M, p, fl.h_pT(p, T), fl)
    o1 = St(m1, p, f1.h_pT(p, T), f1)
    o2 = St(m2, p, f2.h_pT(p, T), f2)
    mo.comp("so", "Source")
    mo.comp("se", "Separator", num_out=2)
    mo.comp("s1", "Sink")
    mo.comp("s2", "Sink")
    mo.conn("i", "so", "out1", "se", "in1", i, fluid=x, p=clean(p), m=M)
    _apply(mo, "", ("conn", "i", d.choice([{"T": i.T}, {"h": i.h}])))
    mo.conn("o1", "se", "out1", "s1", "in1", o1,
            fluid={comps[0]: y1, comps[1]: clean(1 - y1)})
    mo.conn("o2", "se", "out2", "s2", "in1", o2)
    how = d.int(0, 1)
    if how == 0:
        mo.set_conn("o1", m=clean(m1))
    else:
        mo.set_conn("o2", fluid={comps[0]: y2, comps[1]: clean(1 - y2)})
    mo.starting_values(d)
    for lab, y in (("o1", y1), ("o2", y2)):
        mo.kidx[lab][5]["fluid0"] = {comps[0]: y, comps[1]: clean(1 - y)}
    mo.info.update(start="near", how=how)
    return mo


# ------------------------------------------------ drum, droplet separator --
def drum(d):
    mo = Model("drum")
    f, name = draw_two_phase_fluid(d)
    fl = Fluid(f)
    lo, hi = RANGE[name]
    Ts = d.float(lo, hi, 100)
    p = clean(fl.p_sat(Ts))
    hl, hg = fl.h_pQ(p, 0), fl.h_pQ(p, 1)
    m = d.log(0.2, 20, 60)
    if d.bool(40):
        x = d.float(0.1, 0.9, 80)
        mo.tpl = "droplet"
        mo.comp("so", "Source")
        mo.comp("ds", "DropletSeparator")
        mo.comp("s1", "Sink")
        mo.comp("s2", "Sink")
        i = St(m, p, hl + x * (hg - hl), fl)
        mo.conn("i", "so", "out1", "ds", "in1", i, fluid=f)
        mo.conn("o1", "ds", "out1", "s1", "in1", St(m * (1 - x), p, hl, fl))
        mo.conn("o2", "ds", "out2", "s2", "in1", St(m * x, p, hg, fl))
        mo.set_conn(d.choice(["i", "o1", "o2"]), p=p)
        how = d.int(0, 2)
        if how == 0:
            mo.set_conn("i", m=m, x=x)
        elif how == 1:
            mo.set_conn("i", m=m)
            mo.set_conn("o2", m=clean(m * x))
        else:
            mo.set_conn("i", h=clean(i.h))
            mo.set_conn("o1", m=clean(m * (1 - x)))
    elif d.bool(30):
        # liquid drawn off and returned two-phase from elsewhere
        mo.tpl = "drum2"
        hf = fl.h_pT(p, Ts - d.float(3, 20, 20))
        m2 = d.log(0.5, 40, 60)
        x = d.float(0.15, 0.9, 75)
        h2 = hl + x * (hg - hl)
        mv = (m * hf + m2 * h2 - (m + m2) * hl) / (hg - hl)
        ml = m + m2 - mv
        if min(mv, ml) < 0.02 * (m + m2):
            raise Reject
        for n, c in (("so", "Source"), ("sr", "Source"), ("dr", "Drum"),
                     ("sl", "Sink"), ("si", "Sink")):
            mo.comp(n, c)
        fi = St(m, p, hf, fl)
        mo.conn("f", "so", "out1", "dr", "in1", fi, fluid=f)
        mo.conn("d2", "sr", "out1", "dr", "in2", St(m2, p, h2, fl), fluid=f)
        mo.conn("d1", "dr", "out1", "sl", "in1", St(ml, p, hl, fl))
        mo.conn("st", "dr", "out2", "si", "in1", St(mv, p, hg, fl))
        mo.set_conn(d.choice(["f", "st", "d1", "d2"]), p=p)
        _apply(mo, "", ("conn", "f", d.choice([{"h": hf}, {"T": fi.T}])))
        pick = d.perm(["m", "2", "x", "l", "v"])[:3]
        for q in pick:
            k, par = {"m": ("f", {"m": m}), "2": ("d2", {"m": m2}),
                      "x": ("d2", {"x": x}), "l": ("d1", {"m": ml}),
                      "v": ("st", {"m": mv})}[q]
            mo.set_conn(k, **{a: clean(b) for a, b in par.items()})
        mo.info["pick"] = "".join(sorted(pick))
    elif d.bool(30):
        # circulation with blow down
        mo.tpl = "drum3"
        hf = fl.h_pT(p, Ts - d.float(3, 20, 20))
        x = d.float(0.15, 0.9, 75)
        b = clean(m * d.float(0.02, 0.4, 38))
        mc = (b * hl + (m - b) * hg - m * hf) / (x * (hg - hl))
        for n, c in (("so", "Source"), ("dr", "Drum"), ("sp", "Splitter"),
                     ("ev", "SimpleHeatExchanger"), ("sb", "Sink"),
                     ("si", "Sink")):
            mo.comp(n, c)
        fi = St(m, p, hf, fl)
        mo.conn("f", "so", "out1", "dr", "in1", fi, fluid=f)
        mo.conn("d1", "dr", "out1", "sp", "in1", St(mc + b, p, hl, fl))
        mo.conn("bl", "sp", "out1", "sb", "in1", St(b, p, hl, fl))
        mo.conn("d0", "sp", "out2", "ev", "in1", St(mc, p, hl, fl))
        mo.conn("d2", "ev", "out1", "dr", "in2",
                St(mc, p, hl + x * (hg - hl), fl))
        mo.conn("st", "dr", "out2", "si", "in1", St(m - b, p, hg, fl))
        mo.set_conn(d.choice(["f", "st"]), p=p)
        _apply(mo, "", ("conn", "f", d.choice([{"h": hf}, {"T": fi.T}])))
        pick = d.choice(["mbx", "sbx", "msx", "mbc", "cbx", "Qbx"])
        for q in pick:
            if q == "Q":
                mo.set_comp("ev", Q=clean(mc * x * (hg - hl)))
                continue
            k, par = {"m": ("f", {"m": m}), "b": ("bl", {"m": b}),
                      "x": ("d2", {"x": x}), "s": ("st", {"m": m - b}),
                      "c": ("d2", {"m": mc})}[q]
            mo.set_conn(k, **{a: clean(v) for a, v in par.items()})
        mo.info["pick"] = pick
    else:
        # feed + forced circulation evaporator
        sub = d.float(3, 20, 20)
        hf = fl.h_pT(p, Ts - sub)
        x = d.float(0.15, 0.9, 75)
        # mass flow of circulation follows from the energy balance
        mc = m * (hg - hf) / (x * (hg - hl))
        mo.comp("so", "Source")
        mo.comp("dr", "Drum")
        mo.comp("ev", "SimpleHeatExchanger")
        mo.comp("si", "Sink")
        fi = St(m, p, hf, fl)
        ci, co = St(mc, p, hl, fl), St(mc, p, hl + x * (hg - hl), fl)
        mo.conn("f", "so", "out1", "dr", "in1", fi, fluid=f)
        mo.conn("d1", "dr", "out1", "ev", "in1", ci)
        mo.conn("d2", "ev", "out1", "dr", "in2", co)
        mo.conn("st", "dr", "out2", "si", "in1", St(m, p, hg, fl))
        mo.set_conn(d.choice(["f", "st"]), p=p)
        _apply(mo, "", ("conn", "f", d.choice([{"h": hf}, {"T": fi.T}])))
        pick = d.choice(["mx", "mQ", "mc", "Qx", "cx"])
        pick = {"mx": ["m", "x"], "mc": ["m", "c"], "Qx": ["Q", "x"],
                "cx": ["c", "x"], "mQ": ["m", "x"]}[pick]
        for q in pick:
            if q == "m":
                mo.set_conn("f", m=m)
            elif q == "x":
                mo.set_conn("d2", x=x)
            elif q == "c":
                mo.set_conn("d1", m=clean(mc))
            else:
                mo.set_comp("ev", Q=clean(mc * x * (hg - hl)))
        mo.info["pick"] = "".join(pick)
    mo.starting_values(d, noise=0.02)
    mo.info.update(start="near", fluid=list(f))
    return mo


# -------------------------------------------------------------- cycles ----
def heat_pump(d):
    """Closed compression cycle, optionally with secondary streams."""
    mo = Model("heatpump")
    name = d.choice(["R134a", "NH3", "R1234yf", "isobutane"])
    f = {name: 1}
    fl = Fluid(f)
    Te = d.float(258, 290, 60)
    Tc = d.float(310, {"R134a": 355, "NH3": 360, "R1234yf": 350,
                       "isobutane": 375}[name], 60)
    pe, pc = clean(fl.p_sat(Te)), clean(fl.p_sat(Tc))
    m = d.log(0.02, 50, 100)
    sh, eta = d.float(2, 15, 26), d.float(0.55, 0.92, 37)
    s1 = St(m, pe, fl.h_pT(pe, Te + sh), fl)                 # suction
    hs = fl.h_ps(pc, s1.s)
    s2 = St(m, pc, s1.h + (hs - s1.h) / eta, fl)
    sec_c, sec_e = d.bool(60), d.bool(40)
    prc = d.float(0.96, 1.0, 20)
    pre = d.float(0.96, 1.0, 20)
    subc = d.bool(40)
    p3 = pc * prc
    h3 = fl.h_pT(p3, fl.T_sat(p3) - d.float(2, 12, 20)) if subc \
        else fl.h_pQ(p3, 0)
    s3 = St(m, p3, h3, fl)
    s4 = St(m, pe / pre, h3, fl)
    _need(s2)
    if s4.fl.Q_ph(s4.p, s4.h) <= 0.02:
        raise Reject("no flash")
    mo.comp("cc", "CycleCloser")
    mo.comp("co", "Condenser" if sec_c else "SimpleHeatExchanger")
    mo.comp("va", "Valve")
    mo.comp("ev", "HeatExchanger" if sec_e else "SimpleHeatExchanger")
    mo.comp("cp", "Compressor")
    mo.conn("k2", "cp", "out1", "co", "in1", s2)
    mo.conn("k3", "co", "out1", "va", "in1", s3)
    mo.conn("k4", "va", "out1", "ev", "in2" if sec_e else "in1", s4)
    mo.conn("k0", "ev", "out2" if sec_e else "out1", "cc", "in1", s1)
    mo.conn("k1", "cc", "out1", "cp", "in1", s1)
    mo.set_conn(d.choice(["k2", "k3"]), fluid=f)
    pick = {}
    if sec_c:
        mo.comp("cso", "Source")
        mo.comp("csi", "Sink")
        Tci = Tc - d.float(12, 35, 46)
        if Tci < 278:
            Tci = 278.0
        Tco = Tci + d.float(0.2, 0.8, 60) * (s2.Tsat - 2 - Tci)
        pw = d.log(2e5, 1e6, 30)
        w = Fluid({"water": 1})
        hi, ho = w.h_pT(pw, Tci), w.h_pT(pw * 0.98, Tco)
        mw = clean(m * (s2.h - s3.h) / (ho - hi))
        ci, co = St(mw, pw, hi, w), St(mw, pw * 0.98, ho, w)
        if subc and s3.T < Tci + 1.5 or Tco < Tci + 1:
            raise Reject("condenser")
        mo.conn("w1", "cso", "out1", "co", "in2", ci, fluid={"water": 1},
                p=pw, T=clean(Tci))
        mo.conn("w2", "co", "out2", "csi", "in1", co)
        mo.set_comp("co", pr1=clean(prc), pr2=0.98)
        if subc:
            mo.set_comp("co", subcooling=True)
        pick["w"] = [("w1", {"m": mw}), ("w2", {"T": co.T}),
                     ("w2", {"T": co.T})]
    else:
        mo.set_comp("co", pr=clean(prc))
    if subc:
        _apply(mo, "", ("conn", "k3", d.choice(
            [{"Td_bp": s3.Td_bp}, {"T": s3.T}, {"h": s3.h}])))
    elif not sec_c:
        mo.set_conn("k3", x=0.0)
    if sec_e:
        mo.comp("eso", "Source")
        mo.comp("esi", "Sink")
        Thi = Te + sh + d.float(3, 15, 24)
        Tho = Te + d.float(2.5, Thi - Te - 0.5, 30)
        pb = 3e5
        b = Fluid({"INCOMP::MEG[0.25]": 1})
        hi, ho = b.h_pT(pb, Thi), b.h_pT(pb * 0.98, Tho)
        mb = clean(m * (s1.h - s4.h) / (hi - ho))
        bi, bo = St(mb, pb, hi, b), St(mb, pb * .98, ho, b)
        if Thi - Tho < 0.8:
            raise Reject("evaporator")
        mo.conn("b1", "eso", "out1", "ev", "in1", bi,
                fluid={"INCOMP::MEG[0.25]": 1}, p=pb, T=clean(Thi))
        mo.conn("b2", "ev", "out1", "esi", "in1", bo)
        mo.set_comp("ev", pr1=0.98, pr2=clean(pre))
        _apply(mo, "", ("conn", *d.choice([("b1", {"m": mb}),
                                           ("b2", {"T": bo.T})])))
    else:
        mo.set_comp("ev", pr=clean(pre))
    # pressures
    mo.set_conn(*_kw(d.choice([("k2", "p", pc), ("k3", "p", p3)]), mo))
    if sec_c and d.bool(40):
        # condensing pressure from the terminal temperature difference
        for lab in ("k2", "k3"):
            mo.kidx[lab][5].pop("p", None)
        mo.set_comp("co", ttd_u=clean(s2.Tsat - Tco))
        ttd = True
    else:
        ttd = False
    e = d.int(0, 2)
    if e == 0:
        mo.set_conn("k1", p=pe)
    elif e == 1:
        mo.set_conn("k4", p=clean(s4.p))
    else:
        mo.set_comp("cp", pr=clean(pc / pe))
        if ttd:
            pass
    _apply(mo, "", ("conn", "k1", d.choice([{"Td_bp": s1.Td_bp},
                                            {"T": s1.T}, {"h": s1.h}]
                                           if e != 2 else
                                           [{"Td_bp": s1.Td_bp}])))
    mo.set_comp("cp", eta_s=eta)
    # load
    r = d.int(0, 3)
    if r == 0:
        mo.set_conn(d.choice(["k1", "k2", "k3"]), m=m)
    elif r == 1:
        mo.set_comp("cp", P=clean(m * (s2.h - s1.h)))
    elif r == 2:
        mo.set_comp("co", Q=clean(m * (s3.h - s2.h)))
    else:
        mo.set_conn("k1", v=clean(s1.v))
    if sec_c:
        if ttd:
            mo.set_conn("w2", T=clean(co.T))
        else:
            lab, kw = d.choice(pick["w"])
            mo.set_conn(lab, **kw)
    mo.starting_values(d)
    mo.info.update(start="near", fluid=[name], sec=[sec_c, sec_e], ttd=ttd)
    return mo


def _kw(t, mo):
    lab, k, v = t
    mo.kidx[lab][5][k] = v
    return (lab,)


def rankine(d):
    """Steam cycle, optionally with reheat and extraction preheater."""
    mo = Model("rankine")
    f = {"water": 1}
    fl = Fluid(f)
    pb = d.log(2e6, 1.2e7, 60)
    Tb = d.float(max(620, fl.T_sat(pb) + 40), 870, 60)
    pk = d.log(5e3, 5e4, 60)
    eta, etap = d.float(0.7, 0.92, 44), d.float(0.6, 0.9, 30)
    m = d.log(0.5, 60, 60)
    prb, prk = d.float(0.9, 1.0, 20), d.float(0.96, 1.0, 8)
    s1 = St(m, pb, fl.h_pT(pb, Tb), fl)
    reheat = d.bool(40)
    mo.comp("cc", "CycleCloser")
    mo.comp("bo", "SimpleHeatExchanger", pr=clean(prb))
    mo.comp("t1", "Turbine")
    if reheat:
        pm = clean(pb * d.float(0.15, 0.35, 20))
        s2 = St(m, pm, s1.h + eta * (fl.h_ps(pm, s1.s) - s1.h), fl)
        s3 = St(m, pm * 0.95, fl.h_pT(pm * 0.95, Tb), fl)
        s4 = St(m, pk, s3.h + eta * (fl.h_ps(pk, s3.s) - s3.h), fl)
        mo.comp("rh", "SimpleHeatExchanger", pr=0.95)
        mo.comp("t2", "Turbine")
        last = "t2"
    else:
        s4 = St(m, pk, s1.h + eta * (fl.h_ps(pk, s1.s) - s1.h), fl)
        last = "t1"
    p5 = pk * prk
    s5 = St(m, p5, fl.h_pQ(p5, 0), fl)
    p6 = pb / prb
    s6 = St(m, p6, s5.h + (fl.h_ps(p6, s5.s) - s5.h) / etap, fl)
    sec = d.bool(60)
    mo.comp("co", "Condenser" if sec else "SimpleHeatExchanger")
    mo.comp("pu", "Pump")
    mo.conn("k1", "cc", "out1", "t1", "in1", s1, fluid=f)
    if reheat:
        mo.conn("k2", "t1", "out1", "rh", "in1", s2)
        mo.conn("k3", "rh", "out1", "t2", "in1", s3)
    mo.conn("k4", last, "out1", "co", "in1", s4)
    mo.conn("k5", "co", "out1", "pu", "in1", s5)
    mo.conn("k6", "pu", "out1", "bo", "in1", s6)
    mo.conn("k0", "bo", "out1", "cc", "in1", s1)
    if phase(s4) == "l":
        raise Reject("liquid")
    mo.set_conn("k1", p=pb)
    _apply(mo, "", ("conn", "k1", d.choice([{"T": Tb}, {"h": s1.h},
                                            {"Td_bp": s1.Td_bp}])))
    if reheat:
        _apply(mo, "", ("conn", "k3", d.choice([{"T": Tb}, {"h": s3.h}])))
        if d.bool():
            mo.set_comp("t1", pr=clean(pm / pb))
        else:
            mo.set_conn("k2", p=pm)
    mo.set_comp("t1", eta_s=eta)
    if reheat:
        mo.set_comp("t2", eta_s=eta)
    mo.set_comp("pu", eta_s=etap)
    ttd = False
    if sec:
        w = Fluid({"water": 1})
        Tk = s4.Tsat
        Tci = Tk - d.float(8, 18, 20)
        Tco = Tci + d.float(0.2, 0.75, 55) * (Tk - 1 - Tci)
        hi, ho = w.h_pT(2e5, Tci), w.h_pT(1.9e5, Tco)
        mw = clean(m * (s4.h - s5.h) / (ho - hi))
        wi, wo = St(mw, 2e5, hi, w), St(mw, 1.9e5, ho, w)
        if Tci < 276:
            raise Reject("cold")
        mo.comp("wso", "Source")
        mo.comp("wsi", "Sink")
        mo.conn("w1", "wso", "out1", "co", "in2", wi, fluid=f, p=2e5,
                T=clean(Tci))
        mo.conn("w2", "co", "out2", "wsi", "in1", wo)
        mo.set_comp("co", pr1=clean(prk), pr2=0.95)
        ttd = d.bool(40)
        if ttd:
            mo.set_comp("co", ttd_u=clean(Tk - wo.T))
            mo.set_conn("w2", T=clean(wo.T))
        else:
            mo.set_conn("k4", p=pk)
            lab, kw = d.choice([("w2", {"T": clean(wo.T)}), ("w1", {"m":
                                                                    mw})])
            mo.set_conn(lab, **kw)
    else:
        mo.set_comp("co", pr=clean(prk))
        mo.set_conn("k5", x=0.0)
        mo.set_conn("k4", p=pk)
    r = d.int(0, 2)
    if r == 0:
        mo.set_conn("k1", m=m)
    elif r == 1:
        mo.set_comp("t1", P=clean(m * ((s2 if reheat else s4).h - s1.h)))
    else:
        mo.set_comp("bo", Q=clean(m * (s1.h - s6.h)))
    mo.starting_values(d)
    mo.info.update(start="near", reheat=reheat, sec=sec, ttd=ttd)
    return mo


# ----------------------------------------------------------- reactors -----
AIRS = [{"N2": 0.7552, "O2": 0.2314, "Ar": 0.0129, "CO2": 0.0005},
        {"N2": 0.7552, "O2": 0.2314, "Ar": 0.0129, "CO2": 0.0005},
        {"N2": 0.77, "O2": 0.23}, {"O2": 1.0},
        {"N2": 0.75, "O2": 0.23, "H2O": 0.02}]
FUELMIX = [{"CH4": 1.0}, {"H2": 1.0}, {"CH4": 0.96, "CO2": 0.04},
           {"CH4": 0.85, "ethane": 0.1, "propane": 0.05},
           {"CH4": 0.9, "H2": 0.1}, {"propane": 0.7, "butane": 0.3},
           {"CH4": 0.9, "N2": 0.1}, {"ethane": 1.0},
           {"CH4": 0.8, "N2": 0.15, "O2": 0.05}]


def combustion(d, cls=None):
    from vf.oracle import burn, h_ref
    mo = Model("combustion")
    cls = cls or d.choice(["CombustionChamber", "CombustionChamber",
                           "DiabaticCombustionChamber",
                           "DiabaticCombustionChamber", "CombustionEngine"])
    air, fuel = dict(d.choice(AIRS)), dict(d.choice(FUELMIX))
    p = d.log(1e5, 1.5e6, 60)
    mf = d.log(0.02, 5, 60)
    _, lam1, ti1 = burn([(mf, fuel), (1.0, air)])
    lam = d.float(1.1, 3.5, 120)
    pureO2 = "N2" not in air
    if pureO2:
        # dilute with nitrogen so that the flame stays in the valid range
        air = {"O2": 0.4, "N2": 0.6}
        _, lam1, ti1 = burn([(mf, fuel), (1.0, air)])
        lam = d.float(2.5, 5.0, 50)
    rich = not pureO2 and cls != "CombustionEngine" and d.bool(15)
    if rich:
        # fuel in excess; the gas stays in the range of the fuel's equation
        fuel = dict(d.choice([{"H2": 1.0}, {"CH4": 1.0},
                              {"CH4": 0.7, "H2": 0.3}]))
        lam = d.float(0.04, 0.8, 76)
        air = {"O2": d.choice([0.02, 0.03, 0.04, 0.05])}
        air["N2"] = 1 - air["O2"]
        _, lam1, ti1 = burn([(mf, fuel), (1.0, air)])
    ma = lam / lam1
    if "O2" in fuel:
        # the fuel contributes oxygen
        l0 = burn([(mf, fuel), (1e-9, air)])[1]
        ma = max(lam - l0, 0.2) / (lam1 - l0)
    out, lam_, ti = burn([(mf, fuel), (ma, air)])
    M = ma + mf
    names = sorted(set(air) | set(fuel) | {"CO2", "H2O"})
    xo = {f: max(out.get(f, 0.0), 0.0) / M for f in names}
    xo = {f: (v if v > 1e-12 else 0.0) for f, v in xo.items()}
    fa, ff, fo = Fluid(air), Fluid(fuel), Fluid(xo)
    Ta = d.float(290, 700, 80) if "H2O" not in air else d.float(370, 700, 60)
    Tf = d.float(290, 400, 40)
    if rich:
        Ta = d.float(400, 450, 50)
    if any(f in fuel for f in ("butane", "propane")):
        Tf = max(Tf, 380.0)
    swap = d.bool(30)
    eta = 1.0
    pa = pf = po = p
    if cls == "DiabaticCombustionChamber":
        eta = d.float(0.9, 1.0, 50)
        pr = d.float(0.9, 1.0, 50)
        po = clean(p * pr)
        pa, pf = (p, clean(p * d.float(1.0, 1.3, 30)))
        if swap:
            pf, pa = p, clean(p * d.float(1.0, 1.3, 30))
    sa = St(ma, pa, fa.h_pT(pa, Ta), fa)
    sf = St(mf, pf, ff.h_pT(pf, Tf), ff)
    loss = 0.0
    chars = {}
    if cls == "CombustionEngine":
        tiP, q1, q2, ql = (d.float(2.2, 3.2, 20), d.float(0.3, 0.7, 20),
                           d.float(0.2, 0.5, 20), d.float(0.05, 0.2, 20))
        for n, y in (("tiP_char", tiP), ("Q1_char", q1), ("Q2_char", q2),
                     ("Qloss_char", ql)):
            chars[n] = {"char": {"x": [0.4, 1.0, 1.2],
                                 "y": [clean(y * 0.9), y, clean(y * 1.05)]}}
        P = -ti / tiP
        Q1, Q2, Qloss = -ti * q1 / tiP, -ti * q2 / tiP, -ti * ql / tiP
        loss = P + Q1 + Q2 + Qloss
        eta = 1.0
    ho = (ma * (sa.h - h_ref(fa)) + mf * (sf.h - h_ref(ff)) + ti * eta
          + loss) / M + h_ref(fo)
    so = St(M, po, ho, fo)
    if not 420 < so.T < 1950:
        raise Reject("flame temperature %g" % so.T)
    e = {"CombustionEngine": ("in3", "in4", "out3")}.get(
        cls, ("in1", "in2", "out1"))
    for n in ("soa", "sof"):
        mo.comp(n, "Source")
    mo.comp("cc", cls)
    mo.comp("sig", "Sink")
    ports = (e[1], e[0]) if swap else (e[0], e[1])
    mo.conn("air", "soa", "out1", "cc", ports[0], sa, fluid=air)
    mo.conn("fuel", "sof", "out1", "cc", ports[1], sf, fluid=fuel)
    mo.conn("gas", "cc", e[2], "sig", "in1", so)
    _apply(mo, "", ("conn", "air", d.choice([{"T": sa.T}, {"h": sa.h}])))
    _apply(mo, "", ("conn", "fuel", d.choice([{"T": sf.T}, {"h": sf.h}])))
    if cls == "DiabaticCombustionChamber":
        mo.set_conn("air", p=pa)
        mo.set_conn("fuel", p=pf)
        if d.bool():
            mo.set_comp("cc", pr=clean(po / (pf if swap else pa)))
        else:
            mo.set_conn("gas", p=po)
    else:
        mo.set_conn(d.choice(["air", "fuel", "gas"]), p=p)
    opt = {"a": ("conn", "air", {"m": ma}), "f": ("conn", "fuel", {"m": mf}),
           "o": ("conn", "gas", {"m": M}), "l": ("comp", {"lamb": lam_}),
           "t": ("comp", {"ti": ti})}
    if cls == "CombustionChamber":
        opt["T"] = ("conn", "gas", {"T": so.T})
        pick = d.choice(["af", "ao", "fo", "la", "lf", "lt", "Tt", "Tf",
                         "Ta", "ta"])
    elif cls == "DiabaticCombustionChamber":
        pick = d.choice(["af", "la", "lf", "lt", "ta", "fo"])
        if d.bool(70):
            mo.set_comp("cc", eta=eta)
        else:
            mo.set_conn("gas", T=clean(so.T))
    else:
        opt["P"] = ("comp", {"P": P})
        pick = d.choice(["af", "lf", "lt", "la", "lP", "aP"])
    for c in pick:
        _apply(mo, "cc", opt[c])
    if cls == "CombustionEngine":
        w = Fluid({"water": 1})
        mo.set_comp("cc", **chars)
        for j, Q in ((1, Q1), (2, Q2)):
            pw = d.log(2e5, 1e6, 20)
            prw = d.float(0.9, 1.0, 20)
            T1 = d.float(300, 340, 20)
            dT = d.float(5, 40, 35)
            i = St(1, pw, w.h_pT(pw, T1), w)
            o = St(1, pw * prw, w.h_pT(pw * prw, T1 + dT), w)
            if phase(o) != "l":
                raise Reject("boiling")
            mw = clean(-Q / (o.h - i.h))
            i, o = St(mw, pw, i.h, w), St(mw, pw * prw, o.h, w)
            mo.comp("sow%d" % j, "Source")
            mo.comp("siw%d" % j, "Sink")
            mo.conn("w%di" % j, "sow%d" % j, "out1", "cc", "in%d" % j, i,
                    fluid={"water": 1}, p=pw, T=T1)
            mo.conn("w%do" % j, "cc", "out%d" % j, "siw%d" % j, "in1", o)
            r = d.int(0, 2)
            if r == 0 and pw * (1 - prw) > 100:
                mo.set_comp("cc", **{"zeta%d" % j: clean(zeta(i, o))})
            elif r == 1:
                mo.set_conn("w%do" % j, p=clean(o.p))
            else:
                mo.set_comp("cc", **{"pr%d" % j: clean(prw)})
            if d.bool():
                mo.set_conn("w%di" % j, m=mw)
            else:
                mo.set_conn("w%do" % j, T=clean(o.T))
    mo.starting_values(d, noise=0.02)
    mo.kidx["gas"][5]["fluid0"] = {f: clean(v) for f, v in xo.items()}
    mo.info.update(start="near", cls=cls, pick=pick, fuel=sorted(fuel),
                   lamb=clean(lam_), x_out={f: clean(v) for f, v in
                                            xo.items()})
    return mo


def electro(d):
    """Fuel cell and water electrolyzer with cooling loop."""
    from vf.oracle import e0_h2, h_std, molar_mass
    mo = Model("electro")
    cls = d.choice(["FuelCell", "WaterElectrolyzer"])
    o2 = molar_mass("O2") / (molar_mass("O2") + 2 * molar_mass("H2"))
    mw = d.log(0.02, 2, 60)
    m_o2, m_h2 = mw * o2, mw * (1 - o2)
    p = d.log(1e5, 2e6, 60)
    W, O, H = Fluid({"H2O": 1}), Fluid({"O2": 1}), Fluid({"H2": 1})
    Tw = d.float(290, 350, 60)
    To = d.float(290, 350, 60)
    Th = d.float(290, 350, 60) if cls == "FuelCell" else To
    sw = St(mw, p, W.h_pT(p, Tw), W)
    so = St(m_o2, p, O.h_pT(p, To), O)
    sh = St(m_h2, p, H.h_pT(p, Th), H)
    e0 = e0_h2()
    eta = d.float(0.4, 0.8, 80)
    pc = d.log(2e5, 2e6, 30)
    prc = d.float(0.9, 1.0, 50)
    Tc = d.float(285, 320, 40)
    dT = d.float(3, 25, 44)
    c1 = St(1, pc, W.h_pT(pc, Tc), W)
    c2 = St(1, pc * prc, W.h_pT(pc * prc, Tc + dT), W)
    if cls == "FuelCell":
        P = -eta * e0 * m_h2
        # P = H2 (h + e0) + O2 h - cool - water h
        # documented balance (see the known finding on its sign)
        cool = m_h2 * (h_std(sh) + e0) + m_o2 * h_std(so) - mw * h_std(sw) \
            - P
    else:
        P = m_h2 * e0 / eta
        cool = P + mw * h_std(sw) - m_o2 * h_std(so) - m_h2 * (
            h_std(sh) + e0)
    if cool < 100 * mw:
        raise Reject("no heat")
    mc = clean(cool / (c2.h - c1.h))
    c1, c2 = St(mc, c1.p, c1.h, W), St(mc, c2.p, c2.h, W)
    mo.comp("fc", cls)
    for n in ("soc", "so1", "so2"):
        mo.comp(n, "Source")
    for n in ("sic", "si1", "si2"):
        mo.comp(n, "Sink")
    mo.conn("c1", "soc", "out1", "fc", "in1", c1, fluid={"H2O": 1},
            p=pc, T=Tc)
    mo.conn("c2", "fc", "out1", "sic", "in1", c2)
    if cls == "FuelCell":
        mo.comps = [c for c in mo.comps if c[0] != "si2"]
        mo.conn("o", "so1", "out1", "fc", "in2", so)
        mo.conn("h", "so2", "out1", "fc", "in3", sh)
        mo.conn("w", "fc", "out2", "si1", "in1", sw)
    else:
        mo.comps = [c for c in mo.comps if c[0] != "so2"]
        mo.conn("w", "so1", "out1", "fc", "in2", sw)
        mo.conn("o", "fc", "out2", "si1", "in1", so)
        mo.conn("h", "fc", "out3", "si2", "in1", sh)
    mo.set_conn(d.choice(["o", "h", "w"]), p=p)
    # temperatures
    _apply(mo, "", ("conn", "w", d.choice([{"T": Tw}, {"h": sw.h}])))
    if cls == "FuelCell":
        mo.set_conn("o", T=To)
        mo.set_conn("h", T=Th)
    else:
        mo.set_conn(d.choice(["o", "h"]), T=To)
    r = d.int(0, 2)
    if r == 0 and pc * (1 - prc) > 100:
        mo.set_comp("fc", zeta=clean(zeta(c1, c2)))
    elif r == 1:
        mo.set_conn("c2", p=clean(c2.p))
    else:
        mo.set_comp("fc", pr=clean(prc))
    # three of: reacting mass flow, conversion, power, cooling
    A = d.choice([("conn", "h", {"m": m_h2}), ("conn", "o", {"m": m_o2}),
                  ("conn", "w", {"m": mw})])
    B = d.choice([("comp", {"eta": eta}), ("comp", {"e": P / m_h2})])
    C = ("comp", {"P": P})
    Dc = d.choice([("conn", "c1", {"m": mc}), ("conn", "c2", {"T": c2.T})])
    Q = ("comp", {"Q": -cool})
    pick = d.choice([(A, B, Dc), (A, C, Dc), (B, C, Dc), (B, Q, Dc),
                     (A, Q, Dc)])
    for c in pick:
        _apply(mo, "fc", c)
    mo.starting_values(d, noise=0.02)
    mo.info.update(start="near", cls=cls, P=clean(P), Q=clean(-cool))
    return mo


def steam_turbine(d):
    """Baumann rule for wet steam expansion."""
    from scipy.optimize import brentq
    mo = Model("steamturbine")
    fl = Fluid({"water": 1})
    p1 = d.log(2e5, 5e6, 80)
    kind = d.choice(["wet_in", "through", "through", "dry"])
    Ts = fl.T_sat(p1)
    m = d.log(0.5, 50, 50)
    eta, alpha = d.float(0.7, 0.95, 50), d.float(0.4, 1.5, 55)
    if kind == "wet_in":
        h1 = fl.h_pQ(p1, d.float(0.9, 0.99, 30))
    elif kind == "through":
        h1 = fl.h_pT(p1, Ts + d.float(5, 40, 35))
    else:
        h1 = fl.h_pT(p1, Ts + d.float(120, 250, 50))
    pr = d.float(0.1, 0.6, 50) if kind != "dry" else d.float(0.5, 0.9, 40)
    p2 = clean(p1 * pr)
    i = St(m, p1, h1, fl)
    hl, hg = fl.h_pQ(p2, 0), fl.h_pQ(p2, 1)

    def x2(h):
        return (h - hl) / (hg - hl)
    if kind == "wet_in":
        hs = fl.h_ps(p2, i.s)

        def f(h):
            ym = 1 - (i.x + x2(h)) / 2
            return (h1 - h) / (h1 - hs) - eta * (1 - alpha * ym)
        h2 = brentq(f, hs - 1, h1)
    else:
        hd = h1 - eta * (h1 - fl.h_ps(p2, i.s))
        if hd > hg:
            if kind != "dry":
                raise Reject("dry")
            h2 = hd
        else:
            def g(frac):
                ps = p1 - frac * (p1 - p2)
                return h1 - eta * (h1 - fl.h_ps(ps, i.s)) - fl.h_pQ(ps, 1)
            fr = brentq(g, 0, 1)
            ps = p1 - fr * (p1 - p2)
            hsat = fl.h_pQ(ps, 1)
            his = fl.h_ps(p2, fl.s_ph(ps, hsat))

            def f(h):
                ym = 1 - (1 + x2(h)) / 2
                return (hsat - h) - eta * (1 - alpha * ym) * (hsat - his)
            h2 = brentq(f, his - 1, hsat)
    o = St(m, p2, h2, fl)
    mo.comp("so", "Source")
    mo.comp("tu", "SteamTurbine", alpha=alpha, eta_s_dry=eta)
    mo.comp("si", "Sink")
    mo.conn("i", "so", "out1", "tu", "in1", i, fluid={"water": 1}, p=p1)
    mo.conn("o", "tu", "out1", "si", "in1", o)
    _apply(mo, "", ("conn", "i", {"h": h1} if kind == "wet_in" else
                    d.choice([{"h": h1}, {"T": i.T}])))
    if d.bool():
        mo.set_conn("o", p=p2)
    else:
        mo.set_comp("tu", pr=clean(p2 / p1))
    if d.bool():
        mo.set_conn("i", m=m)
    else:
        mo.set_comp("tu", P=clean(m * (h2 - h1)))
    mo.starting_values(d, noise=0.01)
    mo.info.update(start="near", kind=kind)
    return mo


TEMPLATES = {"chain": chain, "hx": heat_exchanger, "split": split_merge,
             "mix": mix_merge, "separator": separator, "drum": drum,
             "heatpump": heat_pump, "rankine": rankine,
             "combustion": combustion, "electro": electro,
             "steamturbine": steam_turbine}


def draw(d, weights, tries=8):
    """Draw a model from weighted templates; retries rejected draws."""
    names = [n for n, w in weights for _ in range(w)]
    name = d.choice(names)
    for _ in range(tries):
        try:
            mo = TEMPLATES[name](d)
            mo.base = name
            return mo
        except (Reject, ValueError):
            continue
    raise Reject(name)


ALL = (("chain", 6), ("hx", 7), ("split", 2), ("mix", 3), ("separator", 1),
       ("drum", 2), ("heatpump", 2), ("rankine", 2), ("combustion", 3),
       ("electro", 2), ("steamturbine", 1))
