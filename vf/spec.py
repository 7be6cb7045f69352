"""Declarative network descriptions and how to build / solve them.

A *spec* is plain JSON.  All dimensional numbers in a spec are SI; `build`
converts them to the unit system of the network with its own conversion
table, so the same spec can be set up in any unit system.

spec = {
  "units": {"p": "bar", ...},             # property -> unit (optional)
  "ranges": {"p": [lo, hi]},              # SI (optional)
  "comps": [[label, class, params], ...],
  "conns": [[label, src, out_id, tgt, in_id, params], ...],
  "busses": [[label, {"P": W}, [[comp, {"param","char","base"}], ...]], ...],
  "udes": [[label, kind, [conn labels], params], ...],
}
Connection parameter values: number | None | {"ref": [label, factor, delta]}
Component parameter values: number | "var" | {"char": {"x","y","param"..}} |
  {"map": {...}} | list | bool | str | None
"""
import numpy as np
from CoolProp.CoolProp import PropsSI  # noqa: F401

from tespy import components as C
from tespy.connections import Bus, Connection, Ref
from tespy.networks import Network
from tespy.tools.characteristics import CharLine, CharMap
from tespy.tools.helpers import (TESPyComponentError, TESPyConnectionError,
                                 TESPyNetworkError, UserDefinedEquation)

from vf.core import Inconclusive

# ---------------------------------------------------------------- units --
# independent conversion table (documented units of tespy)
UNITS = {
    "m": {"kg / s": 1.0, "kg / min": 1 / 60, "kg / h": 1 / 3600,
          "t / h": 1000 / 3600, "g / s": 1e-3},
    "v": {"m3 / s": 1.0, "m3 / min": 1 / 60, "m3 / h": 1 / 3600,
          "l / s": 1e-3, "l / min": 1e-3 / 60, "l / h": 1e-3 / 3600},
    "p": {"Pa": 1.0, "kPa": 1e3, "psi": 6894.8, "bar": 1e5,
          "atm": 101325.0, "MPa": 1e6},
    "h": {"J / kg": 1.0, "kJ / kg": 1e3, "MJ / kg": 1e6, "cal / kg": 4.184,
          "kcal / kg": 4184.0, "Wh / kg": 3600.0, "kWh / kg": 3.6e6},
    "T": {"K": 1.0, "R": 5 / 9, "C": 1.0, "F": 5 / 9},
    "vol": {"m3 / kg": 1.0, "l / kg": 1e-3},
    "x": {"-": 1.0, "%": 1e-2, "ppm": 1e-6},
    "s": {"J / kgK": 1.0, "kJ / kgK": 1e3, "MJ / kgK": 1e6},
}
T_OFF = {"K": 0.0, "R": 0.0, "C": 273.15, "F": 459.67}
SI = {"m": "kg / s", "v": "m3 / s", "p": "Pa", "h": "J / kg", "T": "K",
      "vol": "m3 / kg", "x": "-", "s": "J / kgK"}


def unit_of(units, prop):
    return units.get(prop, SI[prop])


def to_unit(prop, value, units):
    """SI -> network unit."""
    if prop == "T":
        u = unit_of(units, "T")
        if u in ("C",):
            return value - 273.15
        return value / UNITS["T"][u] - (T_OFF["F"] if u == "F" else 0.0)
    if prop in ("Td_bp", "dT"):
        return value / UNITS["T"][unit_of(units, "T")]
    return value / UNITS[prop][unit_of(units, prop)]


def from_unit(prop, value, units):
    if prop == "T":
        u = unit_of(units, "T")
        if u == "C":
            return value + 273.15
        return (value + (T_OFF["F"] if u == "F" else 0.0)) * UNITS["T"][u]
    if prop in ("Td_bp", "dT"):
        return value * UNITS["T"][unit_of(units, "T")]
    return value * UNITS[prop][unit_of(units, prop)]


# component parameters given in network units
COMP_UNITS = {"dp1": "p", "dp2": "p", "Tamb": "T"}


# ---------------------------------------------------------------- build --
class Net:
    """A built network with name lookup."""

    def __init__(self):
        self.nw = None
        self.units = {}
        self.comps = {}
        self.conns = {}
        self.busses = {}
        self.udes = {}

    def c(self, label):
        return self.conns[label]

    def k(self, label):
        return self.comps[label]


def make_char(v):
    d = dict(v)
    kw = {}
    if "x" in d:
        kw["char_func"] = CharLine(x=d["x"], y=d["y"],
                                   extrapolate=bool(d.get("extrapolate")))
    if "param" in d:
        kw["param"] = d["param"]
    if "char_params" in d:
        kw["char_params"] = dict(d["char_params"])
    if "is_set" in d:
        kw["is_set"] = bool(d["is_set"])
    return kw


def make_map(v):
    d = dict(v)
    kw = {}
    if "x" in d:
        kw["char_func"] = CharMap(x=d["x"], y=d["y"], z=d["z"])
    if "is_set" in d:
        kw["is_set"] = bool(d["is_set"])
    return kw


def comp_value(key, val, units):
    if isinstance(val, dict):
        if "char" in val:
            return make_char(val["char"])
        if "map" in val:
            return make_map(val["map"])
        if "start" in val:       # custom variable with starting value
            return {"is_var": True, "is_set": True, "val": val["start"]}
    if key in COMP_UNITS and isinstance(val, (int, float)) \
            and not isinstance(val, bool):
        return to_unit(COMP_UNITS[key], val, units)
    return val


def conn_value(net, key, val):
    if isinstance(val, dict) and "ref" in val:
        lab, f, d = val["ref"]
        prop = "dT" if key == "T" else key
        return Ref(net.conns[lab], float(f),
                   float(to_unit(prop, d, net.units)))
    base = key[:-1] if key.endswith("0") else key
    if base in ("m", "p", "h", "T", "v", "x", "Td_bp", "vol", "s") \
            and isinstance(val, (int, float)) and not isinstance(val, bool):
        return to_unit(base, val, net.units)
    if key == "fluid_engines":
        from tespy.tools.fluid_properties import wrappers
        return {f: getattr(wrappers, w) for f, w in val.items()}
    return val


def new_network(spec, **extra):
    units = spec.get("units", {})
    kw = {p + "_unit": u for p, u in units.items()}
    kw.update(extra)
    nw = Network(iterinfo=False, **kw)
    for prop, rng in spec.get("ranges", {}).items():
        nw.set_attr(**{prop + "_range": [to_unit(prop, r, units)
                                         for r in rng]})
    return nw


def build(spec, order=None):
    """Instantiate the network through the public interface."""
    net = Net()
    net.units = dict(spec.get("units", {}))
    net.nw = new_network(spec)
    for label, cls, params in spec["comps"]:
        kw = {k: comp_value(k, v, net.units) for k, v in params.items()}
        net.comps[label] = getattr(C, cls)(label, **kw)
    for label, s, so, t, ti, params in spec["conns"]:
        net.conns[label] = Connection(net.comps[s], so, net.comps[t], ti,
                                      label=label)
    conn_list = [net.conns[c[0]] for c in spec["conns"]]
    if order is not None:
        conn_list = [conn_list[i] for i in order]
    net.nw.add_conns(*conn_list)
    for label, s, so, t, ti, params in spec["conns"]:
        apply_conn(net, label, params)
    for label, kw, comps in spec.get("busses", []):
        net.busses[label] = make_bus(net, label, kw, comps)
        net.nw.add_busses(net.busses[label])
    for u in spec.get("udes", []):
        ude = make_ude(net, *u)
        net.udes[u[0]] = ude
        net.nw.add_ude(ude)
    return net


def apply_conn(net, label, params):
    c = net.conns[label]
    kw = {k: conn_value(net, k, v) for k, v in params.items()}
    if kw:
        c.set_attr(**kw)


def apply_comp(net, label, params):
    kw = {k: comp_value(k, v, net.units) for k, v in params.items()}
    net.comps[label].set_attr(**kw)


def make_bus(net, label, kw, comps):
    b = Bus(label, **kw)
    for clabel, d in comps:
        e = {"comp": net.comps[clabel]}
        for k, v in d.items():
            if k == "char" and isinstance(v, dict):
                v = CharLine(x=v["x"], y=v["y"])
            e[k] = v
        b.add_comps(e)
    return b


# user defined equations --------------------------------------------------
def _ude_T_ratio(ude):
    a, b = ude.conns
    return a.calc_T() - ude.params["f"] * b.calc_T() - ude.params["d"]


def _ude_T_ratio_deriv(ude):
    a, b = ude.conns
    for c in (a, b):
        for v in ("p", "h"):
            if c.get_attr(v).is_var:
                ude.jacobian[c.get_attr(v).J_col] = ude.numeric_deriv(v, c)


def _ude_m_lin(ude):
    a, b = ude.conns
    return a.m.val_SI - ude.params["f"] * b.m.val_SI - ude.params["d"]


def _ude_m_lin_deriv(ude):
    a, b = ude.conns
    if a.m.is_var:
        ude.jacobian[a.m.J_col] = 1.0
    if b.m.is_var:
        ude.jacobian[b.m.J_col] = \
            ude.jacobian.get(b.m.J_col, 0.0) - ude.params["f"] \
            if a.m is b.m else -ude.params["f"]


def _ude_p_lin(ude):
    a, b = ude.conns
    return a.p.val_SI - ude.params["f"] * b.p.val_SI - ude.params["d"]


def _ude_p_lin_deriv(ude):
    a, b = ude.conns
    if a.p.is_var:
        ude.jacobian[a.p.J_col] = 1.0
    if b.p.is_var:
        ude.jacobian[b.p.J_col] = -ude.params["f"]


UDES = {
    "T_lin": (_ude_T_ratio, _ude_T_ratio_deriv),
    "m_lin": (_ude_m_lin, _ude_m_lin_deriv),
    "p_lin": (_ude_p_lin, _ude_p_lin_deriv),
}


def make_ude(net, label, kind, conns, params):
    f, d = UDES[kind]
    return UserDefinedEquation(label, f, d, [net.conns[c] for c in conns],
                               dict(params))


# ---------------------------------------------------------------- solve --
NUMERIC = (ValueError, ZeroDivisionError, OverflowError, FloatingPointError,
           np.linalg.LinAlgError)
# limits of the property database: flash routine fails, water below freezing
DATABASE = ("unable to solve 1phase PY flash", "Temperature to QT_flash")


def solve(net, mode="design", must=False, **kw):
    """Solve; Inconclusive when the numerics do not converge.

    Exceptions which are not of numerical nature propagate: the runner turns
    them into violations, because the generated models are valid inputs.
    """
    try:
        net.nw.solve(mode, **kw)
    except (TESPyNetworkError, TESPyComponentError, TESPyConnectionError):
        raise
    except NUMERIC as e:
        # failed after the iteration: a defect, unless the database itself
        # cannot evaluate the state
        if net.nw.converged and not str(e).startswith(DATABASE):
            raise
        raise Inconclusive("solve raised %s: %s" % (type(e).__name__,
                                                    str(e)[:200]),
                           "numerical error") from e
    if not net.nw.converged:
        raise Inconclusive("did not converge (iter %s)" % net.nw.iter)
    return net


def states(net):
    """Solution in SI: {label: {"m","p","h","fluid"}}"""
    out = {}
    for lab, c in net.conns.items():
        out[lab] = {
            "m": float(c.m.val_SI), "p": float(c.p.val_SI),
            "h": float(c.h.val_SI),
            "fluid": {f: float(x) for f, x in c.fluid.val.items()},
        }
    return out
