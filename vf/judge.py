"""Oracles evaluated on a solved network.

All of them read only the public result values (mass flow, pressure,
enthalpy, composition, component parameters) and recompute everything else
with vf.oracle.
"""
import math

from vf import oracle
from vf.core import Inconclusive, Violation, close
from vf.oracle import HX, SIMPLE, state_of
from vf.spec import from_unit, to_unit

RES = 1.2e-3     # documented convergence criterion: norm of residuals < 1e-3

PASS = SIMPLE + ("Valve", "Pump", "Compressor", "Turbine", "SteamTurbine",
                 "CycleCloser", "SubsystemInterface")
WORK = ("Pump", "Compressor", "Turbine", "SteamTurbine")
HEAT = SIMPLE
COMB = ("CombustionChamber", "DiabaticCombustionChamber", "CombustionEngine")
REACT = COMB + ("FuelCell", "WaterElectrolyzer")


def fail(msg, *a, key=None):
    raise Violation(msg % a if a else msg, key)


def ports(net, spec):
    """{component label: (cls, [(in id, conn)], [(out id, conn)])}"""
    out = {lab: [cls, {}, {}] for lab, cls, _ in spec["comps"]}
    for lab, s, so, t, ti, _ in spec["conns"]:
        out[s][2][so] = lab
        out[t][1][ti] = lab
    res = {}
    for lab, (cls, i, o) in out.items():
        res[lab] = (cls, [net.conns[i[k]] for k in sorted(i)],
                    [net.conns[o[k]] for k in sorted(o)])
    return res


def finite(net):
    for lab, c in net.conns.items():
        for k in ("m", "p", "h"):
            v = c.get_attr(k).val_SI
            if not math.isfinite(v):
                fail("connection %s: %s is %r after convergence", lab, k, v)
        if c.T.val_SI != c.T.val_SI:
            # tespy flags states of mixtures outside the range of the fluid
            # properties with nan (and an error message)
            try:
                state_of(c).T
            except ValueError:
                raise Inconclusive("state of %s is infeasible" % lab,
                                   "infeasible state flagged")


# ------------------------------------------------------------ balances ----
def mx(c):
    return c.m.val_SI


def hx_(c):
    return c.h.val_SI


def species(conns):
    out = {}
    for c in conns:
        for f, x in c.fluid.val.items():
            out[f] = out.get(f, 0.0) + x * c.m.val_SI
    return out


def balances(net, spec):
    """Mass, species and energy conservation of every component."""
    n = 0
    for lab, (cls, inn, out) in ports(net, spec).items():
        k = net.comps[lab]
        if cls in ("Source", "Sink"):
            continue
        min_, mout = sum(map(mx, inn)), sum(map(mx, out))
        if cls != "CycleCloser" and abs(min_ - mout) > \
                RES + 1e-9 * abs(min_):
            fail("%s %s: mass flow in %.9g, out %.9g", cls, lab, min_, mout)
        # streams which must not mix
        pairs = []
        if cls in PASS:
            pairs = list(zip(inn, out))
        elif cls in HX:
            pairs = list(zip(inn, out))
        elif cls == "CombustionEngine":
            pairs = list(zip(inn[:2], out[:2]))
        elif cls in ("FuelCell", "WaterElectrolyzer"):
            pairs = [(inn[0], out[0])]
        for a, b in pairs:
            if abs(a.m.val_SI - b.m.val_SI) > RES * (
                    1 if cls != "CycleCloser" else 1) + 1e-9 * abs(a.m.val_SI):
                fail("%s %s: stream mass flow %.9g -> %.9g", cls, lab,
                     a.m.val_SI, b.m.val_SI)
            for f in set(a.fluid.val) | set(b.fluid.val):
                xa, xb = a.fluid.val.get(f, 0), b.fluid.val.get(f, 0)
                if abs(xa - xb) > 1e-5:
                    fail("%s %s: fraction of %s changes %.9g -> %.9g", cls,
                         lab, f, xa, xb)
        # species
        if cls not in REACT:
            si, so = species(inn), species(out)
            for f in set(si) | set(so):
                if abs(si.get(f, 0) - so.get(f, 0)) > RES + 1e-6 * abs(min_):
                    fail("%s %s: %s mass flow in %.9g, out %.9g", cls, lab,
                         f, si.get(f, 0), so.get(f, 0))
        for c in inn + out:
            s = sum(c.fluid.val.values())
            if abs(s - 1) > 1e-4:
                fail("%s: mass fractions of %s sum up to %.9g", cls, c.label,
                     s)
        # energy
        Hi = sum(mx(c) * hx_(c) for c in inn)
        Ho = sum(mx(c) * hx_(c) for c in out)
        scale = sum(abs(mx(c) * hx_(c)) for c in inn + out)
        hm = max(abs(hx_(c)) for c in inn + out)
        tol = 2 * RES + abs(min_ - mout) * hm + 1e-9 * scale
        ext = None
        if cls in WORK:
            ext = k.P.val
        elif cls in HEAT:
            ext = k.Q.val
        elif cls in HX or cls in ("Valve", "CycleCloser",
                                  "SubsystemInterface", "Merge", "Splitter",
                                  "Drum", "DropletSeparator"):
            ext = 0.0
        if ext is not None:
            if not abs(Hi + ext - Ho) <= tol:
                fail("%s %s: energy in %.9g + external %.9g != out %.9g",
                     cls, lab, Hi, ext, Ho)
            n += 1
        if cls in ("Merge", "Splitter", "Drum", "DropletSeparator",
                   "Separator", "CycleCloser", "SubsystemInterface"):
            p0 = inn[0].p.val_SI
            for c in inn + out:
                if abs(c.p.val_SI - p0) > 2 * RES + 1e-9 * p0:
                    fail("%s %s: pressures differ: %.9g and %.9g", cls, lab,
                         p0, c.p.val_SI)
        if cls in ("Splitter", "Valve", "CycleCloser", "SubsystemInterface"):
            for c in out:
                if abs(hx_(c) - hx_(inn[0])) > 2 * RES + 1e-9 * hm:
                    fail("%s %s: enthalpy changes %.9g -> %.9g", cls, lab,
                         hx_(inn[0]), hx_(c))
        if cls == "Splitter":
            for c in out:
                for f, x in c.fluid.val.items():
                    if abs(x - inn[0].fluid.val.get(f, 0)) > 1e-5:
                        fail("Splitter %s: composition changes", lab)
        if cls == "Separator":
            T0 = state_of(inn[0]).T
            for c in out:
                if abs(state_of(c).T - T0) > 0.03:
                    fail("Separator %s: temperature %.6f -> %.6f", lab, T0,
                         state_of(c).T)
        if cls in ("Drum", "DropletSeparator"):
            for c, q in zip(out, (0, 1)):
                st = state_of(c)
                if abs(st.fl.h_pQ(st.p, q) - st.h) > 2 * RES + 1e-8 * abs(
                        st.h):
                    fail("%s %s: outlet %d is not saturated", cls, lab, q + 1)
        if cls == "Condenser" and not k.subcooling.val:
            st = state_of(out[0])
            if abs(st.fl.h_pQ(st.p, 0) - st.h) > 2 * RES + 1e-8 * abs(st.h):
                fail("Condenser %s: outlet is not saturated liquid", lab)
        if cls == "Desuperheater":
            st = state_of(out[0])
            if abs(st.fl.h_pQ(st.p, 1) - st.h) > 2 * RES + 1e-8 * abs(st.h):
                fail("Desuperheater %s: outlet is not saturated gas", lab)
        if cls in REACT:
            n += reactor(cls, lab, k, inn, out)
    network_balance(net, spec)
    return n


def reactor(cls, lab, k, inn, out):
    """Stoichiometry and energy conservation of reacting components."""
    if cls in COMB:
        ci, co = (inn[2:], out[2]) if cls == "CombustionEngine" \
            else (inn, out[0])
        want, lam, ti = oracle.burn([(mx(c), c.fluid.val) for c in ci])
        M = sum(map(mx, ci))
        if abs(M - mx(co)) > RES + 1e-9 * M:
            fail("%s %s: gas flow in %.9g, out %.9g", cls, lab, M, mx(co))
        for f in set(want) | set(co.fluid.val):
            got = co.fluid.val.get(f, 0.0) * mx(co)
            if abs(got - want.get(f, 0.0)) > 2 * RES + 2e-5 * M:
                fail("%s %s: %s leaving %.9g, reaction balance %.9g", cls,
                     lab, f, got, want.get(f, 0.0))
        # energy: sensible enthalpy above the reference + heating value
        E = ti
        for c in ci:
            E += mx(c) * (hx_(c) - oracle.h_ref(state_of(c).fl))
        E -= mx(co) * (hx_(co) - oracle.h_ref(state_of(co).fl))
        if cls == "DiabaticCombustionChamber":
            E += k.Q_loss.val
        elif cls == "CombustionEngine":
            for a, b in zip(inn[:2], out[:2]):
                E -= mx(a) * (hx_(b) - hx_(a))
            E += k.P.val + k.Qloss.val
        if not abs(E) <= 2 * RES + 2e-5 * ti:
            fail("%s %s: energy balance residual %.9g W of %.9g W thermal "
                 "input", cls, lab, E, ti)
        return 1
    if cls == "FuelCell":
        w, o, h = out[1], inn[1], inn[2]
    else:
        w, o, h = inn[1], out[1], out[2]
    so2 = oracle.molar_mass("O2") / (oracle.molar_mass("O2")
                                     + 2 * oracle.molar_mass("H2"))
    for c, share, f in ((o, so2, "O2"), (h, 1 - so2, "H2"), (w, 1, "H2O")):
        if abs(mx(c) - share * mx(w)) > RES + 1e-6 * mx(w):
            fail("%s %s: %s flow %.9g for %.9g water", cls, lab, f, mx(c),
                 mx(w))
        if abs(c.fluid.val.get(f, 0) - 1) > 1e-6:
            fail("%s %s: %s is not pure", cls, lab, f)
    for c in (o, h):
        if abs(c.p.val_SI - w.p.val_SI) > RES + 1e-9 * w.p.val_SI:
            fail("%s %s: reactor pressures differ", cls, lab)
    hs = {n: mx(c) * oracle.h_std(state_of(c))
          for n, c in (("w", w), ("o", o), ("h", h))}
    chem = mx(h) * oracle.e0_h2()
    cool = mx(inn[0]) * (hx_(out[0]) - hx_(inn[0]))
    tol = 5 * RES + 1e-6 * chem
    if cls == "WaterElectrolyzer":
        if abs(state_of(o).T - state_of(h).T) > 0.01:
            fail("%s %s: gas temperatures differ", cls, lab)
        E = k.P.val + hs["w"] - hs["o"] - hs["h"] - chem - cool
        if not abs(E) <= tol:
            fail("%s %s: energy balance residual %.9g W", cls, lab, E)
    else:
        # documented balance of the component
        E = hs["h"] + hs["o"] + chem - cool - hs["w"] - k.P.val
        if not abs(E) <= tol:
            fail("%s %s: documented energy balance residual %.9g W", cls,
                 lab, E)
        E = hs["h"] + hs["o"] + chem - cool - hs["w"] + k.P.val
        if not abs(E) <= tol:
            fail("FuelCell: power and heat delivered exceed the energy "
                 "input by %.9g W (P = %.9g W)", -E, k.P.val,
                 key="energy:FuelCell:sign of P")
    return 1


def reactor_results(cls, k, inn, out):
    """Reported parameters of reacting components."""
    i, o = [state_of(c) for c in inn], [state_of(c) for c in out]
    r = {}
    if cls in COMB:
        ci = inn[2:] if cls == "CombustionEngine" else inn
        co = out[-1]
        _, lam, ti = oracle.burn([(mx(c), c.fluid.val) for c in ci])
        r["lamb"] = (lam, 1e-5 * lam)
        ti2 = sum(mx(c) * x * oracle.lhv(f) for c in ci
                  for f, x in c.fluid.val.items() if f in oracle.FUELS)
        ti2 -= sum(mx(co) * x * oracle.lhv(f)
                   for f, x in co.fluid.val.items() if f in oracle.FUELS)
        r["ti"] = (ti2, 1e-7 * ti)
        if cls == "DiabaticCombustionChamber":
            r["pr"] = (o[0].p / i[0].p, 1e-9)
            E = sum(mx(c) * (hx_(c) - oracle.h_ref(state_of(c).fl))
                    for c in ci)
            E -= mx(co) * (hx_(co) - oracle.h_ref(state_of(co).fl))
            r["eta"] = (-E / ti, 3e-5)
            r["Q_loss"] = (-(ti + E), 3e-5 * ti)
        elif cls == "CombustionEngine":
            for j in (0, 1):
                q = str(j + 1)
                r["Q" + q] = (-i[j].m * (o[j].h - i[j].h), 1e-3)
                r["pr" + q] = (o[j].p / i[j].p, 1e-9)
                z = oracle.zeta(i[j], o[j])
                r["zeta" + q] = (z, 1e-6 * abs(z) + 1e-6)
            f = k.tiP_char.char_func.evaluate(
                k.P.val / k.P.design if k.P.design == k.P.design else 1)
            g = k.Qloss_char.char_func.evaluate(
                k.P.val / k.P.design if k.P.design == k.P.design else 1)
            r["P"] = (-ti / f, 1e-5 * ti)
            r["Qloss"] = (-ti * g / f, 1e-5 * ti)
        return r
    h = inn[2] if cls == "FuelCell" else out[2]
    r["Q"] = (-i[0].m * (o[0].h - i[0].h), 1e-3)
    r["pr"] = (o[0].p / i[0].p, 1e-9)
    z = oracle.zeta(i[0], o[0])
    r["zeta"] = (z, 1e-6 * abs(z) + 1e-6)
    r["e"] = (k.P.val / mx(h), 1e-8 * abs(k.P.val) / mx(h))
    if cls == "FuelCell":
        r["eta"] = (-r["e"][0] / oracle.e0_h2(), 1e-6)
    else:
        r["eta"] = (oracle.e0_h2() / r["e"][0], 1e-6)
    return r


def network_balance(net, spec):
    """What enters through sources leaves through sinks."""
    pt = ports(net, spec)
    if any(c in REACT + ("Separator",) for c, _, _ in pt.values()):
        return
    m = H = E = scale = 0.0
    for lab, (cls, inn, out) in pt.items():
        if cls == "Source":
            m += sum(map(mx, out))
            H += sum(mx(c) * hx_(c) for c in out)
            scale += sum(abs(mx(c) * hx_(c)) for c in out)
        elif cls == "Sink":
            m -= sum(map(mx, inn))
            H -= sum(mx(c) * hx_(c) for c in inn)
            scale += sum(abs(mx(c) * hx_(c)) for c in inn)
        elif cls in WORK:
            E += net.comps[lab].P.val
            scale += abs(net.comps[lab].P.val)
        elif cls in HEAT:
            E += net.comps[lab].Q.val
            scale += abs(net.comps[lab].Q.val)
    n = len(pt)
    if abs(m) > n * RES:
        fail("network: mass flow of sources - sinks = %.9g", m)
    hm = max(abs(c.h.val_SI) for c in net.conns.values())
    dm = 0.0
    for lab, (cls, inn, out) in pt.items():
        if cls not in ("Source", "Sink"):
            dm += abs(sum(map(mx, inn)) - sum(map(mx, out)))
    # cycles are closed up to the precision of the cycle closer
    if abs(H + E) > 2 * n * RES + (dm + abs(m)) * hm + 1e-7 * scale + \
            1e-8 * hm * sum(abs(mx(c)) for c in net.conns.values()):
        fail("network: energy balance residual %.9g W (sources - sinks %.9g,"
             " external %.9g)", H + E, H, E)


# --------------------------------------------------------------- specs ----
def tol_T(st):
    return 2e-3 if st.fl.pure else 2e-2


def check_conn_specs(net, spec):
    n = 0
    for lab, _, _, _, _, par in spec["conns"]:
        c = net.conns[lab]
        st = state_of(c)
        for k, v in par.items():
            if k in ("m0", "p0", "h0", "T0", "fluid0", "fluid_engines",
                     "design", "offdesign", "state", "mixing_rule",
                     "local_design", "local_offdesign", "design_path",
                     "printout", "fluid_coefs", "fluid_balance"):
                continue
            if k == "fluid":
                for f, x in v.items():
                    f = f.split("::")[-1]
                    if abs(c.fluid.val.get(f, 0.0) - x) > 1e-7:
                        fail("%s: fraction of %s is %.9g, specified %.9g",
                             lab, f, c.fluid.val.get(f, 0.0), x)
                n += 1
                continue
            if v is None:
                continue
            ref = isinstance(v, dict) and "ref" in v
            got = conn_value(st, k)
            if ref:
                o = state_of(net.conns[v["ref"][0]])
                want = conn_value(o, k) * v["ref"][1] + v["ref"][2]
            else:
                want = v
            if k in ("m", "p", "h"):
                tol = RES + 1e-9 * abs(want) if ref else 1e-9 * abs(want)
            elif k == "T":
                tol = tol_T(st) * (2 if ref else 1)
            elif k == "Td_bp":
                tol = 2 * tol_T(st)
            elif k == "x":
                dh = st.fl.h_pQ(st.p, 1) - st.fl.h_pQ(st.p, 0)
                tol = (2 * RES) / dh + 1e-7
            elif k == "v":
                tol = 1e-4 * abs(want)
                if not st.fl.pure:
                    tol *= 3
            else:
                raise KeyError(k)
            if not abs(got - want) <= tol:
                fail("%s: specified %s = %.10g%s, result %.10g", lab, k,
                     want, " (reference)" if ref else "", got)
            n += 1
    return n


def conn_value(st, k):
    return {"m": lambda: st.m, "p": lambda: st.p, "h": lambda: st.h,
            "T": lambda: st.T, "v": lambda: st.v, "x": lambda: st.x,
            "Td_bp": lambda: st.Td_bp, "s": lambda: st.s,
            "vol": lambda: st.vol}[k]()


SKIP = ("num_in", "num_out", "printout", "design", "offdesign",
        "design_path", "local_design", "local_offdesign", "subcooling",
        "Tamb", "dissipative", "char_warnings", "fkt_group")


def check_comp_specs(net, spec):
    """Every specified component parameter is met by the states."""
    n = 0
    pt = ports(net, spec)
    for lab, cls, par in spec["comps"]:
        _, inn, out = pt[lab]
        i, o = [state_of(c) for c in inn], [state_of(c) for c in out]
        k = net.comps[lab]
        if cls in REACT:
            r = reactor_results(cls, k, inn, out)
            for q, v in par.items():
                if isinstance(v, float) and q in r:
                    want, tol = r[q]
                    if not abs(want - v) <= 2 * tol + 2 * RES * (
                            q in ("Q", "P", "Q1", "Q2", "ti")) \
                            + 2e-5 * abs(v):
                        fail("%s %s: specified %s = %.10g, the states imply "
                             "%.10g", cls, lab, q, v, want,
                             key="spec:%s:%s" % (cls, q))
                    n += 1
                elif isinstance(v, float) and q == "P":
                    if abs(k.P.val - v) > 1e-6 * abs(v):
                        fail("%s %s: specified P = %.10g, result %.10g", cls,
                             lab, v, k.P.val)
                    n += 1
                elif not isinstance(v, dict):
                    raise KeyError("%s %s" % (cls, q))
            if cls == "CombustionEngine":
                n += engine_chars(lab, k, par, inn, out)
            continue
        mixed = any(not s.fl.pure for s in i + o)
        rel = 2e-4 if mixed else 2e-5
        g = {q: (v if isinstance(v, (int, float)) else k.get_attr(q).val)
             for q, v in par.items()
             if q not in SKIP and not isinstance(v, (bool, list, str))
             or q == "Tamb"}
        r = oracle.results(cls, i, o, g)
        for q, v in par.items():
            if q in SKIP or isinstance(v, (str, bool, list, dict)) \
                    or v is None:
                continue
            if cls in SIMPLE + ("SteamTurbine",) and q in GROUP_PARTS:
                continue
            if q not in r:
                if q in ("kA", "ttd_u", "ttd_l", "eff_hot", "eff_cold",
                         "eff_max", "ttd_min", "td_pinch", "UA", "zeta",
                         "zeta1", "zeta2"):
                    continue
                raise KeyError("%s %s" % (cls, q))
            check_param(cls, lab, q, v, r[q], i, o, rel)
            n += 1
        n += groups(cls, lab, k, par, g, i, o)
    return n


GROUP_PARTS = ("L", "D", "ks", "ks_HW", "E", "A", "eta_opt", "lkf_lin",
               "lkf_quad", "alpha", "eta_s_dry", "c_1", "c_2", "iam_1", "iam_2", "aoi", "doc")


def check_param(cls, lab, q, want, got, i, o, rel):
    if q in ("Q", "P"):
        tol = RES + 1e-8 * abs(want) + 1e-9 * i[0].m * abs(i[0].h)
    elif q.startswith("pr"):
        tol = 1e-8
    elif q.startswith("dp"):
        tol = RES + 1e-9 * i[0].p
    elif q == "eta_s":
        # the residual is an enthalpy difference
        tol = rel + 3 * RES / max(abs(o[0].h - i[0].h), 1e-3)
    elif q.startswith("ttd"):
        tol = 2 * RES + (0.02 if rel > 1e-4 else 1e-3)
    elif q.startswith("td_"):
        tol = 2 * RES + 2e-3
    elif q.startswith("eff"):
        tol = 1e-4
    elif q in ("kA", "UA"):
        tol = 1e-4 * abs(want)
    elif q.startswith("zeta"):
        tol = 1e-4 * abs(want) + 1e-3
    else:
        tol = 1e-4 * abs(want)
    if not abs(got - want) <= tol:
        fail("%s %s: specified %s = %.10g, the states imply %.10g", cls, lab,
             q, want, got, key="spec:%s:%s" % (cls, q))


def engine_chars(lab, k, par, inn, out):
    """Heat flows relative to the thermal input at design load."""
    if not all(q in par for q in ("tiP_char", "Q1_char", "Q2_char",
                                  "Qloss_char")):
        return 0
    _, _, ti = oracle.burn([(mx(c), c.fluid.val) for c in inn[2:]])
    y = {q: dict(zip(par[q]["char"]["x"], par[q]["char"]["y"]))[1.0]
         for q in ("tiP_char", "Q1_char", "Q2_char", "Qloss_char")}
    want = {"P": -ti / y["tiP_char"]}
    for a, b in (("Q1", "Q1_char"), ("Q2", "Q2_char"),
                 ("Qloss", "Qloss_char")):
        want[a] = -ti * y[b] / y["tiP_char"]
    for q, w in want.items():
        got = k.get_attr(q).val
        if not abs(got - w) <= 5 * RES + 2e-5 * ti:
            fail("CombustionEngine %s: %s = %.9g, characteristics give %.9g",
                 lab, q, got, w)
    return 4


def baumann(lab, par, i, o):
    """Dry efficiency down to saturation, wetness penalty below."""
    fl, eta, al = i.fl, par["eta_s_dry"], par["alpha"]
    hg = fl.h_pQ(o.p, 1)
    hl = fl.h_pQ(o.p, 0)
    x2 = (o.h - hl) / (hg - hl)
    if i.h < fl.h_pQ(i.p, 1):
        want = eta * (1 - al * (1 - (i.x + x2) / 2))
        got = (i.h - o.h) / (i.h - fl.h_ps(o.p, i.s))
        ok = abs(got - want) < 2 * RES
    else:
        hd = i.h - eta * (i.h - fl.h_ps(o.p, i.s))
        if abs(hd - hg) < 500:
            return 0
        if hd > hg:
            got, want = o.h, hd
            ok = abs(got - want) < 2 * RES * (i.h - hd) + 5
        else:
            lo, hi = 0.0, 1.0
            for _ in range(80):
                f = (lo + hi) / 2
                ps = i.p - f * (i.p - o.p)
                if i.h - eta * (i.h - fl.h_ps(ps, i.s)) > fl.h_pQ(ps, 1):
                    lo = f
                else:
                    hi = f
            hs = fl.h_pQ(ps, 1)
            his = fl.h_ps(o.p, fl.s_ph(ps, hs))
            want = hs - eta * (1 - al * (1 - (1 + x2) / 2)) * (hs - his)
            got = o.h
            ok = abs(got - want) < 2 * RES + 1.0
    if not ok:
        fail("SteamTurbine %s: wet expansion %.9g, Baumann rule %.9g", lab,
             got, want)
    return 1


def groups(cls, lab, k, par, g, i, o):
    """Parameter groups: friction, collector losses."""
    n = 0
    if cls == "SteamTurbine" and "alpha" in par:
        return baumann(lab, par, i[0], o[0])
    if cls not in SIMPLE:
        return 0
    if all(q in par for q in ("L", "D")):
        dp = i[0].p - o[0].p
        if "ks" in par:
            want, br, re = oracle.dp_darcy(i[0], o[0], g["L"], g["D"],
                                           g["ks"])
            near = abs(re - 2320) < 2 or abs(re * g["ks"] / g["D"] - 65) \
                < .1 or abs(re - 1e4) < 5 or abs(re - 1e6) < 100
            if near:
                return n
        elif "ks_HW" in par:
            want = oracle.dp_hw(i[0], o[0], g["L"], g["D"], g["ks_HW"])
        else:
            want = None
        if want is not None:
            if not abs(dp - want) <= 2 * RES + 2e-4 * abs(want) + \
                    1e-9 * i[0].p:
                fail("%s %s: pressure drop %.9g, correlation %.9g", cls, lab,
                     dp, want, key="friction:%s" % cls)
            n += 1
    if cls in ("SolarCollector", "ParabolicTrough") and "E" in par:
        Tm = 0.5 * (i[0].T + o[0].T)
        d = Tm - par["Tamb"]
        if cls == "SolarCollector":
            q = g["E"] * g["eta_opt"] - d * g["lkf_lin"] \
                - g["lkf_quad"] * d ** 2
        else:
            iam = 1 - g["iam_1"] * abs(g["aoi"]) - g["iam_2"] * g["aoi"] ** 2
            q = g["E"] * g["eta_opt"] * g["doc"] ** 1.5 * iam \
                - d * g["c_1"] - g["c_2"] * d ** 2
        Q = i[0].m * (o[0].h - i[0].h)
        if not abs(Q - g["A"] * q) <= 2 * RES + 1e-5 * abs(Q):
            fail("%s %s: heat %.9g, collector equation %.9g", cls, lab, Q,
                 g["A"] * q, key="solar:%s" % cls)
        n += 1
    return n


# ------------------------------------------------------------- results ----
def check_results(net, spec):
    """Reported result values follow from the reported states."""
    n = 0
    for lab, c in net.conns.items():
        st = state_of(c)
        pure = st.fl.pure
        for k in ("m", "p", "h"):
            cont = c.get_attr(k)
            if not close(from_unit(k, cont.val, net.units), cont.val_SI,
                         1e-9, 1e-9):
                fail("%s: %s reported %.10g (SI %.10g)", lab, k, cont.val,
                     cont.val_SI)
            n += 1
        items = {"T": (st.T, 0, 1e-6 if pure else 2e-2),
                 "v": (st.v, 1e-7 if pure else 2e-4, 1e-12),
                 "vol": (st.vol, 1e-7 if pure else 2e-4, 1e-12),
                 "s": (st.s, 1e-7, 1e-4 if pure else 0.5)}
        if st.subcritical:
            try:
                items["x"] = (st.x, 0, 1e-6)
                items["Td_bp"] = (st.Td_bp, 0, 1e-5)
            except ValueError:
                pass
        for k, (want, rel, ab) in items.items():
            si = c.get_attr(k).val_SI
            if not close(si, want, rel, ab):
                fail("%s: reported %s = %.10g, state has %.10g", lab, k, si,
                     want, key="result:conn:%s" % k)
            if not close(from_unit(k, c.get_attr(k).val, net.units), si,
                         1e-8, 1e-8):
                fail("%s: %s reported %.10g in network units, SI %.10g", lab,
                     k, c.get_attr(k).val, si)
            n += 1
        if st.subcritical:
            try:
                hl, hg = st.fl.h_pQ(st.p, 0), st.fl.h_pQ(st.p, 1)
            except ValueError:  # below the triple point pressure
                hl, hg = float("inf"), float("-inf")
            want = None if hl > hg else \
                "l" if st.h < hl - 1 else "g" if st.h > hg + 1 else \
                "tp" if hl + 1 < st.h < hg - 1 else None
            if want is not None and c.phase.val != want:
                fail("%s: reported phase %s, state is %s", lab, c.phase.val,
                     want, key="result:conn:phase")
            n += 1
        row = net.nw.results["Connection"].loc[lab]
        if st.subcritical and not row["phase"] == c.phase.val:
            fail("results table of %s: phase %s, object has %s", lab,
                 row["phase"], c.phase.val)
        for k in ("m", "p", "h", "T", "v", "vol", "s", "x", "Td_bp"):
            v = c.get_attr(k).val
            if not (close(row[k], v, 1e-12, 1e-12) or
                    (v != v and row[k] != row[k])):
                fail("results table of %s: %s = %r, object has %r", lab, k,
                     row[k], v)
        for f, x in c.fluid.val.items():
            if not close(row[f], x, 1e-12, 1e-12):
                fail("results table of %s: fluid %s = %r, object has %r",
                     lab, f, row[f], x)
    pt = ports(net, spec)
    for lab, cls, par in spec["comps"]:
        _, inn, out = pt[lab]
        if not inn or not out:
            continue
        if cls in REACT:
            k = net.comps[lab]
            for q, (want, tol) in reactor_results(cls, k, inn, out).items():
                got = k.get_attr(q).val
                if not abs(got - want) <= tol:
                    fail("%s %s: reported %s = %r, states imply %.10g", cls,
                         lab, q, got, want, key="result:%s:%s" % (cls, q))
                n += 1
            continue
        i, o = [state_of(c) for c in inn], [state_of(c) for c in out]
        k = net.comps[lab]
        mixed = any(not s.fl.pure for s in i + o)
        g = {q: v for q, v in par.items() if isinstance(v, (int, float))}
        for q in ("E", "A"):
            if q in par:
                g[q] = k.get_attr(q).val
        r = oracle.results(cls, i, o, g)
        if cls == "MovingBoundaryHeatExchanger":
            r.update(oracle.moving_boundary(i, o))
        for q, want in r.items():
            cont = k.get_attr(q)
            got = cont.val
            if q in ("dp1", "dp2"):
                got = from_unit("p", got, net.units)
            tol = result_tol(q, want, i, o, mixed)
            if q == "kA" and cls in SIMPLE and not cont.is_set:
                # only reported when specified or the group is complete
                if got != got or got == 0:
                    continue
            if got is None or not abs(got - want) <= tol:
                fail("%s %s: reported %s = %r, states imply %.10g", cls, lab,
                     q, got, want, key="result:%s:%s" % (cls, q))
            n += 1
        row = net.nw.results.get(cls)
        if row is not None and lab in row.index:
            for q in r:
                if q in row.columns:
                    v = k.get_attr(q).val
                    w = row.loc[lab, q]
                    if not (close(w, v, 1e-12, 1e-12) or (w != w)):
                        fail("results table: %s.%s = %r, object has %r", lab,
                             q, w, v)
    return n


def result_tol(q, want, i, o, mixed):
    if q in ("Q", "P", "Q_loss"):
        return 2 * RES + 1e-7 * abs(want) + 1e-9 * i[0].m * abs(i[0].h)
    if q.startswith("pr"):
        return 1e-9 * abs(want)
    if q.startswith("dp"):
        return 1e-6 + 1e-9 * i[0].p
    if q.startswith("zeta"):
        return (1e-3 if mixed else 1e-6) * abs(want) + 1e-9
    if q.startswith("ttd") or q in ("td_log", "td_pinch"):
        return 0.05 if mixed else 1e-4
    if q in ("kA", "UA"):
        return (5e-3 if mixed else 1e-4) * abs(want)
    if q.startswith("eff"):
        return 2e-3 if mixed else 1e-4
    if q == "eta_s":
        dh = max(abs(o[0].h - i[0].h), 1e-6)
        return 1e-6 + (5.0 if mixed else 1e-3) / dh
    return 1e-6 * abs(want)


def truth_distance(net, truth):
    d = [0.0, 0.0, 0.0]
    for lab, (m, p, h) in truth.items():
        c = net.conns[lab]
        d[0] = max(d[0], abs(c.m.val_SI / m - 1))
        d[1] = max(d[1], abs(c.p.val_SI / p - 1))
        d[2] = max(d[2], abs(c.h.val_SI - h))
    return d


__all__ = ["to_unit"]
