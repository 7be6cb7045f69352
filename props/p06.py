"""Exporting and loading a network reproduces it."""
import os
import shutil
import tempfile

import numpy as np
from tespy.networks import load_network
from tespy.tools import data_containers as dcs
from vf import spec, zoo
from vf.core import Inconclusive, Outcome, Reject, Violation
from vf.meta_rel import agree, compare_states, solve_polished
from props.p04 import draw_units

QUICK = 70
THOROUGH = 1200
RULE = ("the network was exported and loaded, every specification of the "
        "loaded network was compared with the one given by the user and the "
        "solutions of both networks were compared")

DESIGN = {
    "Turbine": (["eta_s", "pr"], ["eta_s_char", "cone"]),
    "Pump": (["eta_s"], ["eta_s_char"]),
    "Compressor": (["eta_s"], ["eta_s_char"]),
    "HeatExchanger": (["ttd_u", "pr1"], ["kA_char", "zeta1"]),
    "Condenser": (["pr2", "ttd_u"], ["zeta2", "kA_char"]),
    "SimpleHeatExchanger": (["pr"], ["zeta"]),
    "Pipe": (["pr"], ["zeta"]),
    "Valve": (["pr"], ["dp_char"]),
}
CHARS = {"Turbine": "eta_s_char", "Pump": "eta_s_char",
         "Compressor": "eta_s_char", "HeatExchanger": "kA_char1",
         "Condenser": "kA_char2", "Valve": "dp_char"}
BUSABLE = {"Turbine": "P", "Pump": "P", "Compressor": "P",
           "SimpleHeatExchanger": "Q", "Pipe": "Q", "HeatExchanger": "Q",
           "Condenser": "Q", "CombustionChamber": "TI"}


def draw_line(d):
    n = d.int(2, 5)
    x = [0.0]
    for _ in range(n - 1):
        x.append(round(x[-1] + d.float(0.1, 0.8, 70), 6))
    return {"x": x, "y": [round(d.float(0.3, 1.3, 100), 6) for _ in x],
            "extrapolate": d.bool(30)}


def gen(d):
    mo = zoo.draw(d, zoo.ALL)
    if d.bool(30):
        mo.starting_values(d)
    case = mo.case()
    sp = case["spec"]
    if sp.get("udes"):
        raise Reject
    if d.bool(60):
        sp["units"] = draw_units(d)
    for lab, cls, par in sp["comps"]:
        if cls in DESIGN and d.bool(40):
            de, off = DESIGN[cls]
            par["design"] = d.subset(de)
            par["offdesign"] = d.subset(off)
        if cls in CHARS and CHARS[cls] not in par and d.bool(30):
            par[CHARS[cls]] = {"char": dict(draw_line(d), is_set=False)}
        if cls == "Compressor" and d.bool(40):
            x = [0.8, 1.0, 1.1]
            y = [[round(a * b, 4) for b in (0.8, 0.9, 1.0, 1.1)] for a in x]
            z = [[round(d.float(0.6, 1.2, 60), 4) for _ in r] for r in y]
            par[d.choice(["char_map_pr", "char_map_eta_s"])] = \
                {"map": {"x": x, "y": y, "z": z, "is_set": False}}
        if d.bool(15):
            par["printout"] = False
        if d.bool(15):
            par["fkt_group"] = "group %d" % d.int(0, 2)
        if d.bool(4):
            k = d.choice(["local_offdesign", "local_design"])
            par[k] = True
            if d.bool(50):
                par["design_path"] = "some/where"
    for c in sp["conns"]:
        if d.bool(20):
            c[5]["printout"] = False
        if d.bool(20):
            c[5]["design"] = d.subset(["T", "p", "m", "h"], 0, 2)
            c[5]["offdesign"] = d.subset(["v", "x", "Td_bp"], 0, 1)
        if d.bool(4):
            k = d.choice(["local_offdesign", "local_design"])
            c[5][k] = True
            if d.bool(50):
                c[5]["design_path"] = "some/where"
    busses = sp.setdefault("busses", [])
    cand = [[k[0], BUSABLE[k[1]]] for k in sp["comps"] if k[1] in BUSABLE]
    for i in range(d.choice([0, 1, 1, 2])):
        sel = d.subset(cand, 0, 3)
        if not sel:
            continue
        comps = []
        for lab, _ in sel:
            e = {}
            if d.bool(60):
                e["char"] = d.choice([0.9, draw_line(d)])
            if d.bool(60):
                e["base"] = d.choice(["component", "bus"])
            comps.append([lab, e])
        busses.append(["bus %d" % i, {}, comps])
    case["when"] = d.choice(["fresh", "solved", "solved", "changed"])
    if any("local_offdesign" in p or "design_path" in p
           for p in [k[2] for k in sp["comps"]] + [c[5] for c in sp["conns"]]):
        # only meaningful with a stored design: compare the models only
        case["when"] = "unsolved"
    case["again"] = d.bool(40)
    return case


def val(x):
    if isinstance(x, np.ndarray):
        return [val(i) for i in x.tolist()]
    if isinstance(x, (list, tuple)):
        return [val(i) for i in x]
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, dict):
        return {k: val(v) for k, v in x.items()}
    return x


def describe_container(c):
    """What the user can see of one parameter."""
    name = type(c).__name__
    out = {"type": name, "is_set": val(getattr(c, "is_set", None))}
    if isinstance(c, dcs.ReferencedFluidProperties):
        if c.is_set:
            out["ref"] = [c.ref.obj.label, c.ref.factor, c.ref.delta]
        return out
    if isinstance(c, dcs.FluidComposition):
        out["is_set"] = sorted(c.is_set)
        out["val"] = {f: val(c.val[f]) for f in sorted(c.is_set)}
        out["engine"] = {f: c.engine[f].__name__ if f in c.engine
                         else "CoolPropWrapper" for f in sorted(c.is_set)}
        out["back_end"] = {f: c.back_end.get(f) or "HEOS"
                           for f in sorted(c.is_set)}
        return out
    if isinstance(c, (dcs.ComponentCharacteristics,
                      dcs.ComponentCharacteristicMaps)):
        f = c.char_func
        out["char"] = None if f is None else {
            k: val(getattr(f, k)) for k in ("x", "y", "z", "extrapolate")
            if hasattr(f, k)}
        out["param"] = c.param
        if hasattr(c, "char_params"):
            out["char_params"] = val(c.char_params)
        return out
    if isinstance(c, dcs.GroupedComponentProperties):
        return {"type": name}       # derived from the elements
    if isinstance(c, dcs.GroupedComponentCharacteristics):
        return {"type": name, "is_set": val(c.is_set)}
    if getattr(c, "is_set", False) is True or name == "SimpleDataContainer":
        out["val"] = val(c.val)
    for k in ("is_var", "min_val", "max_val"):
        if hasattr(c, k) and isinstance(c, dcs.ComponentProperties):
            out[k] = val(getattr(c, k))
    return out


FLAGS_C = ("design", "offdesign", "design_path", "local_design",
           "local_offdesign", "printout", "mixing_rule", "source_id",
           "target_id")
FLAGS_K = ("design", "offdesign", "design_path", "local_design",
           "local_offdesign", "printout", "fkt_group", "char_warnings")


def describe(nw):
    out = {"network": {}, "conns": {}, "comps": {}, "busses": {}}
    for p in ("m", "p", "h", "T", "v", "vol", "x", "s"):
        out["network"][p + "_unit"] = getattr(nw, p + "_unit")
    for p in ("m", "p", "h"):
        out["network"][p + "_range"] = val(getattr(nw, p + "_range"))
    for c in nw.conns["object"]:
        e = {k: val(c.get_attr(k)) for k in FLAGS_C}
        e["source"], e["target"] = c.source.label, c.target.label
        for k in list(c.property_data) + ["state"]:
            e[k] = describe_container(c.get_attr(k))
        out["conns"][c.label] = e
    for k in nw.comps["object"]:
        e = {q: val(k.get_attr(q)) for q in FLAGS_K}
        e["class"] = type(k).__name__
        for q in k.parameters:
            e[q] = describe_container(k.get_attr(q))
        out["comps"][k.label] = e
    for lab, b in nw.busses.items():
        e = {"P": [val(b.P.is_set), val(b.P.val) if b.P.is_set else None]}
        for cp in b.comps.index:
            r = b.comps.loc[cp]
            e["comp " + cp.label] = [r["param"], r["base"],
                                     val(r["char"].x), val(r["char"].y),
                                     val(r["char"].extrapolate)]
        out["busses"][lab] = e
    return out


def diff(a, b, path=""):
    """First difference of two descriptions."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return "%s/%s only in one of them" % (path, k)
            r = diff(a[k], b[k], "%s/%s" % (path, k))
            if r:
                return r
        return None
    if isinstance(a, float) or isinstance(b, float):
        try:
            if a == b or (a != a and b != b) or \
                    abs(a - b) <= 1e-12 * max(abs(a), abs(b)):
                return None
        except TypeError:
            pass
        return "%s: %r became %r" % (path, a, b)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: %r became %r" % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    return None if a == b else "%s: %r became %r" % (path, a, b)


def field(msg):
    p = msg.split(":")[0].split()[0].strip("/").split("/")
    return "/".join([p[0]] + p[2:])


def wrap(nw, old):
    """Net wrapper of a loaded network."""
    net = spec.Net()
    net.nw = nw
    net.units = old.units
    net.conns = {c.label: c for c in nw.conns["object"]}
    net.comps = {c.label: c for c in nw.comps["object"]}
    net.busses = dict(nw.busses)
    return net


def check(case):
    sp = case["spec"]
    net = spec.build(sp)
    when = case["when"]
    if when in ("fresh", "unsolved"):
        # a network can be exported once it knows its components
        net.nw.check_network()
    else:
        solve_polished(net)
        if when == "changed":
            change(net, sp)
    want = describe(net.nw)
    path = tempfile.mkdtemp(prefix="exp")
    try:
        net.nw.export(path)
        again = describe(net.nw)
        r = diff(want, again)
        if r:
            raise Violation("export changed the network: " + r,
                            key="export changes:" + field(r))
        nw = load_network(path)
        got = describe(nw)
        r = diff(want, got)
        if r:
            raise Violation("loaded network differs: " + r,
                            key="load:" + field(r))
        if case["again"]:
            p2 = os.path.join(path, "second")
            os.mkdir(p2)
            nw.export(p2)
            got = describe(load_network(p2))
            r = diff(want, got)
            if r:
                raise Violation("second generation differs: " + r,
                                key="load:" + field(r))
    finally:
        shutil.rmtree(path, ignore_errors=True)
    if when == "unsolved":
        return Outcome(True, labels=[case["tpl"], when])
    nw.set_attr(iterinfo=False)
    net2 = wrap(nw, net)
    try:
        solve_polished(net)
    except Inconclusive:
        if when != "changed":
            raise
        return Outcome(True, labels=[when, "changed model not solvable"])
    try:
        solve_polished(net2)
    except Inconclusive as e:
        raise Inconclusive(str(e), "loaded network did not converge")
    try:
        compare_states(net, net2, "loaded network")
    except Violation:
        if when == "changed":
            raise
        agree(net, net2, sp, "loaded network")
    # the loaded network is a living one: specifications can be changed
    c0 = next(c for c in sp["conns"] if c[5].get("fluid"))
    net2.conns[c0[0]].set_attr(fluid=dict(c0[5]["fluid"]))
    solve_polished(net2)
    compare_states(net, net2, "fluid respecified in the loaded network")
    return Outcome(True, labels=[case["tpl"], when])


def change(net, sp):
    """Replace one reference by its value, or double one mass flow."""
    for c in sp["conns"]:
        for k, v in c[5].items():
            if isinstance(v, dict) and "ref" in v and k in "mphTvx":
                x = net.conns[c[0]].get_attr(k).val
                net.conns[c[0]].set_attr(**{k: None})
                net.conns[c[0]].set_attr(**{k: x})
                return
    for c in sp["conns"]:
        if isinstance(c[5].get("m"), float):
            net.conns[c[0]].set_attr(m=net.conns[c[0]].m.val * 1.1)
            return


