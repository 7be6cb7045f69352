"""The way a plant is written down does not influence its solution."""
import copy

from tespy.components import Subsystem
from vf import spec, zoo
from vf.core import Inconclusive, Outcome
from vf.meta_rel import agree, solve_polished

QUICK = 80
THOROUGH = 1500
RULE = ("at least one rewriting (order, labels, fluid aliases, packaging, "
        "starting values, solver options) was applied, both models converged "
        "and all states were compared")

ALIAS = {"water": ["H2O", "HEOS::water", "Water"], "N2": ["Nitrogen", "nitrogen"],
         "O2": ["Oxygen", "oxygen"], "CO2": ["CarbonDioxide"],
         "Ar": ["Argon", "argon"], "CH4": ["Methane", "methane"],
         "NH3": ["Ammonia", "HEOS::NH3"], "R134a": ["R134A", "HEOS::R134a"],
         "air": ["Air", "HEOS::Air"], "H2": ["Hydrogen", "hydrogen"],
         "H2O": ["water", "Water"], "isobutane": ["IsoButane"]}
REACT = ("CombustionChamber", "DiabaticCombustionChamber", "CombustionEngine",
         "FuelCell", "WaterElectrolyzer")


def gen(d):
    mo = zoo.draw(d, zoo.ALL)
    if d.bool(40):
        mo.starting_values(d)
    case = mo.case()
    sp = case["spec"]
    n, m = len(sp["conns"]), len(sp["comps"])
    rw = {}
    if d.bool(60):
        rw["conns"] = d.perm(range(n))
    if d.bool(50):
        rw["comps"] = d.perm(range(m))
    if d.bool(30):
        rw["add"] = d.perm(range(n))
        rw["chunks"] = d.bool(50)
    if d.bool(40):
        rw["labels"] = d.choice(["rev", "num", "odd"])
    if d.bool(30):
        rw["start"] = [[d.float(-1, 1, 20) for _ in range(3)]
                       for _ in range(n)]
    if d.bool(30):
        rw["kw"] = d.choice([{"min_iter": 6}, {"max_iter": 80},
                             {"init_previous": False},
                             {"print_results": True}])
    if d.bool(30):
        rw["sub"] = True
    if d.bool(40) and not any(k[1] in REACT for k in sp["comps"]):
        fl = sorted({f for c in sp["conns"]
                     for k in ("fluid", "fluid0") for f in c[5].get(k) or {}})
        rw["alias"] = {f: d.choice(ALIAS[f]) for f in fl if f in ALIAS
                       and d.bool(70)}
        new = [rw["alias"].get(f, f).split("::")[-1] for f in fl]
        if len(set(new)) < len(new):
            rw.pop("alias")
    if not rw:
        rw["conns"] = list(range(n))[::-1]
    case["rw"] = rw
    return case


def rename(rw, sp):
    how = rw.get("labels")
    conns = [c[0] for c in sp["conns"]]
    comps = [k[0] for k in sp["comps"]]
    if not how:
        return {c: c for c in conns}, {k: k for k in comps}
    if how == "rev":
        return ({c: "z%03d" % (900 - i) for i, c in enumerate(conns)},
                {k: "y%03d" % (900 - i) for i, k in enumerate(comps)})
    if how == "num":
        return ({c: str(i + 1) for i, c in enumerate(conns)},
                {k: "unit %d" % (100 - i) for i, k in enumerate(comps)})
    return ({c: "stream no. %d ä" % i for i, c in enumerate(conns)},
            {k: "plant section / %d" % i for i, k in enumerate(comps)})


def rewrite(sp, rw):
    """spec -> (equivalent spec, connection names, fluid names)"""
    s = copy.deepcopy(sp)
    cn, kn = rename(rw, sp)
    al = rw.get("alias", {})

    def par(p):
        out = {}
        for k, v in p.items():
            if isinstance(v, dict) and "ref" in v:
                v = {"ref": [cn[v["ref"][0]]] + v["ref"][1:]}
            if k in ("fluid", "fluid0"):
                v = {al.get(f, f): x for f, x in v.items()}
            out[k] = v
        return out

    s["comps"] = [[kn[a], b, c] for a, b, c in s["comps"]]
    s["conns"] = [[cn[a], kn[b], c, kn[e], f, par(g)]
                  for a, b, c, e, f, g in s["conns"]]
    if "busses" in s:
        s["busses"] = [[a, b, [[kn[x], y] for x, y in c]]
                       for a, b, c in s["busses"]]
    if "udes" in s:
        s["udes"] = [[a, b, [cn[x] for x in c], e] for a, b, c, e in s["udes"]]
    if "conns" in rw:
        s["conns"] = [s["conns"][i] for i in rw["conns"]]
    if "comps" in rw:
        s["comps"] = [s["comps"][i] for i in rw["comps"]]
    return s, cn, {f: al[f].split("::")[-1] for f in al}


class Plant(Subsystem):
    """Holds a complete model."""

    def __init__(self, label, comps, conns):
        self._given = comps, conns
        super().__init__(label)

    def create_comps(self):
        for k in self._given[0]:
            self.comps[k.label] = k

    def create_conns(self):
        for c in self._given[1]:
            self.conns[c.label] = c


def build(s, rw):
    """Like spec.build, but adds the connections differently."""
    if not rw.get("sub") and "add" not in rw:
        return spec.build(s)
    net = spec.Net()
    net.units = {}
    net.nw = spec.new_network(s)
    for label, cls, params in s["comps"]:
        kw = {k: spec.comp_value(k, v, {}) for k, v in params.items()}
        net.comps[label] = getattr(spec.C, cls)(label, **kw)
    for label, a, so, b, ti, _ in s["conns"]:
        net.conns[label] = spec.Connection(net.comps[a], so, net.comps[b], ti,
                                           label=label)
    conns = list(net.conns.values())
    if "add" in rw:
        conns = [conns[i] for i in rw["add"]]
    half = len(conns) // 2
    if rw.get("sub"):
        part = conns[:half + 1]
        net.nw.add_subsys(Plant("sub", list(net.comps.values()), part))
        if conns[half + 1:]:
            net.nw.add_conns(*conns[half + 1:])
    elif rw.get("chunks"):
        for c in conns:
            net.nw.add_conns(c)
    else:
        net.nw.add_conns(*conns)
    # specifications after adding to the network
    for label, _, _, _, _, params in s["conns"]:
        spec.apply_conn(net, label, params)
    for label, kw, comps in s.get("busses", []):
        net.busses[label] = spec.make_bus(net, label, kw, comps)
        net.nw.add_busses(net.busses[label])
    for u in s.get("udes", []):
        net.udes[u[0]] = spec.make_ude(net, *u)
        net.nw.add_ude(net.udes[u[0]])
    return net


def check(case):
    sp, rw = case["spec"], case["rw"]
    a = spec.build(sp)
    solve_polished(a)
    s2, cn, fn = rewrite(sp, rw)
    if "start" in rw:
        inv = {v: k for k, v in cn.items()}
        idx = {c[0]: i for i, c in enumerate(sp["conns"])}
        for c in s2["conns"]:
            k = a.conns[inv[c[0]]]
            e = rw["start"][idx[inv[c[0]]]]
            c[5].update(m0=k.m.val_SI * (1 + .02 * e[0]),
                        p0=k.p.val_SI * (1 + .02 * e[1]),
                        h0=k.h.val_SI + 3e3 * e[2])
    b = build(s2, rw)
    try:
        solve_polished(b, **rw.get("kw", {}))
    except Inconclusive as e:
        raise Inconclusive(str(e), "only one presentation converged")
    labels = [case["tpl"]] + sorted("rw:" + k for k in rw)
    agree(a, b, s2, "rewritten model (%s)" % ", ".join(sorted(rw)), names=cn,
          fluid_names=fn, x_abs=1e-6)
    return Outcome(True, labels=labels)
