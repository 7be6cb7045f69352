"""Off-design operation follows the documented characteristics."""
import json
import math
import os
import shutil
import tempfile

from vf.core import Inconclusive, Outcome, Reject, Violation, require
from vf.oracle import burn, log_mean, state_of
from props.p15 import interp, row, point
from vf.spec import Net, solve

QUICK = 80
THOROUGH = 4000
RULE = ("the off-design point differs from the design by at least 2 % in mass "
        "flow, pressure or temperature and the off-design solution converged")
MAX_INCONCLUSIVE = 0.35

GAS = ["air", "N2", "CO2"]


def line(d, lo=0.4, hi=1.4, s=1.0, y1=1.0, amp=0.25, ext=None):
    """strictly increasing x around one, y near y1"""
    n = d.int(2, 6)
    xs = [lo + (hi - lo) * i / (n - 1) for i in range(n)]
    ys = [y1 * (1 + amp * d.float(-1, 1, 40)) for _ in range(n)]
    return {"x": [float("%.6g" % (s * v)) for v in xs],
            "y": [float("%.6g" % v) for v in ys],
            "ext": d.bool(40) if ext is None else ext}


def gen(d):
    dev = d.choice(["turbine", "turbine", "compressor", "compmap", "compmap",
                    "pump", "flow", "valve", "hx", "hx", "hx", "condenser",
                    "simple", "simple", "pipe", "electrolyzer", "engine"])
    c = {"dev": dev, "tpl": dev, "features": [dev]}
    c["m"] = d.log(0.1, 50, 100)
    c["f"] = d.float(0.6, 1.25, 65)            # load
    c["fp"] = d.choice([1.0, 1.0, 0.9, 1.08])  # boundary pressure
    c["dT"] = d.choice([0.0, 0.0, 15.0, -12.0])
    c["p"] = d.log(2e5, 3e6, 80)
    c["T"] = d.float(440, 700, 100)
    c["pr"] = d.float(0.25, 0.7, 45)
    c["eta"] = d.float(0.6, 0.92, 32)
    c["fluid"] = d.choice(GAS)
    c["param"] = d.choice(["m", "m", "v", "pr"])
    c["type"] = d.choice(["rel", "rel", "rel", "abs"])
    c["default"] = d.bool(30)
    c["line"] = line(d)
    c["line2"] = line(d)
    c["cone"] = d.bool(60)
    c["free"] = d.choice(["p", "m"])
    c["igva"] = d.choice([0, 0, 10.0, -15.0, "var"])
    c["stages"] = d.int(1, 3)
    c["how"] = d.choice(["same", "same", "path", "load", "local"])
    c["units"] = {"m_unit": d.choice(["kg / s", "t / h"]),
                  "p_unit": d.choice(["Pa", "bar", "MPa"]),
                  "T_unit": d.choice(["K", "C", "F"])} if d.bool(35) else {}
    c["zeta"] = d.bool(50)
    c["zf"] = d.choice(["zeta", "zeta", "pr", "dp"])
    if dev == "compmap":
        n, k = d.int(2, 4), d.int(3, 5)
        sh = [0.12 * (j - (n - 1) / 2) for j in range(n)]
        c["map"] = {"x": [float("%.5g" % (1 + s)) for s in sh],
                    "y": [[float("%.5g" % (1 + s + 0.25 * (
                        2 * i / (k - 1) - 1))) for i in range(k)] for s in sh],
                    "z": [[float("%.5g" % (1 + 0.6 * s - 0.25 * (
                        2 * i / (k - 1) - 1) + 0.02 * d.float(-1, 1, 10)))
                        for i in range(k)] for s in sh]}
        c["map2"] = {"x": c["map"]["x"], "y": c["map"]["y"],
                     "z": [[float("%.5g" % (1 + 0.15 * d.float(-1, 0.2, 12)))
                            for i in range(k)] for s in sh]}
        c["which"] = d.choice(["pr", "eta", "both"])
        if d.bool(25):
            c["xfar"] = d.choice([-60.0, 90.0])
        if d.bool(25):
            c["yfar"] = True
    if dev in ("hx", "condenser"):
        c["p1"] = d.choice(["m", "m", "v"])
        c["p2"] = d.choice(["m", "m", "v"])
        c["swap"] = d.bool(20)
        c["f2"] = d.float(0.7, 1.2, 50)
    return c


def to_unit(c, q, v):
    """own conversion of SI values to the units of the case"""
    u = c["units"]
    if v is None or not u:
        return v
    if q == "m":
        return v * 3.6 if u["m_unit"] == "t / h" else v
    if q in ("p", "p0"):
        return v / {"Pa": 1.0, "bar": 1e5, "MPa": 1e6}[u["p_unit"]]
    if q == "T":
        return {"K": v, "C": v - 273.15, "F": v * 1.8 - 459.67}[u["T_unit"]]
    return v


def put(c, k, **kw):
    k.set_attr(**{n: to_unit(c, n, v) if n in ("m", "p", "p0", "T") else v
                  for n, v in kw.items()})


# ------------------------------------------------------------- building ---
def build(c):
    from tespy.components import Compressor, Condenser, HeatExchanger, Pump, \
        Pipe, SimpleHeatExchanger, Sink, Source, Turbine, Valve, \
        WaterElectrolyzer, CombustionEngine
    from tespy.connections import Connection
    from tespy.networks import Network
    from tespy.tools.characteristics import CharLine, CharMap
    nw = Network(iterinfo=False)
    if c["units"]:
        nw.set_attr(**c["units"])
    conns, comps = {}, {}

    def comp(cls, label):
        comps[label] = cls(label)
        return comps[label]

    def conn(label, s, so, t, ti, **kw):
        k = Connection(comps[s], so, comps[t], ti, label=label)
        conns[label] = k
        nw.add_conns(k)
        sa(k, **kw)
        return k

    def sa(k, **kw):
        put(c, k, **kw)

    def char(ln):
        return CharLine(ln["x"], ln["y"], extrapolate=ln["ext"])

    dev = c["dev"]
    if dev == "turbine":
        n = c["stages"]
        comp(Source, "so"), comp(Sink, "si")
        names = ["so"] + ["t%d" % i for i in range(n)] + ["si"]
        for i in range(n):
            comp(Turbine, "t%d" % i)
        pr = c["pr"] ** (1 / n)
        for i in range(n + 1):
            conn("c%d" % i, names[i], "out1", names[i + 1], "in1")
        sa(conns["c0"], fluid={c["fluid"]: 1}, m=c["m"], p=c["p"],
                             T=c["T"])
        for i in range(n):
            t = comps["t%d" % i]
            off = ["eta_s_char"]
            des = ["eta_s"]
            t.set_attr(eta_s=c["eta"])
            sa(conns["c%d" % (i + 1)], p=c["p"] * pr ** (i + 1))
            if c["cone"]:
                off.append("cone")
                # the pressure in front of the stage follows from the law
                if i > 0 or c["free"] == "p":
                    sa(conns["c%d" % i], design=["p"])
                else:
                    sa(conns["c0"], design=["m"])
            if not c["default"]:
                d = {"char_func": char(scaled(c, c["line"])),
                     "param": c["param"]}
                if c["type"] == "abs":
                    d["char_params"] = {"type": "abs", "inconn": 0,
                                        "outconn": 0}
                t.set_attr(eta_s_char=d)
                t.eta_s_char.is_set = False
            t.set_attr(design=des, offdesign=off)
    elif dev in ("compressor", "pump", "compmap", "flow"):
        comp(Source, "so"), comp(Sink, "si")
        cls = Compressor if dev.startswith("comp") else Pump
        k = comp(cls, "k")
        conn("c0", "so", "out1", "k", "in1")
        conn("c1", "k", "out1", "si", "in1")
        if cls is Compressor:
            sa(conns["c0"], fluid={c["fluid"]: 1}, m=c["m"],
                                 p=c["p"] / 2, T=c["T"] - 140)
            p2 = c["p"] / 2 * (1 + 2 * c["pr"])
        else:
            sa(conns["c0"], fluid={"water": 1}, m=c["m"], p=c["p"],
                                 T=330)
            p2 = c["p"] * (1 + 6 * c["pr"])
        sa(conns["c1"], p=p2)
        k.set_attr(eta_s=c["eta"])
        if dev in ("compressor", "pump"):
            if not c["default"] or dev == "pump":
                d = {"char_func": char(scaled(c, c["line"])),
                     "param": c["param"]}
                if c["type"] == "abs":
                    d["char_params"] = {"type": "abs", "inconn": 0,
                                        "outconn": 0}
                k.set_attr(eta_s_char=d)
                k.eta_s_char.is_set = False
            k.set_attr(design=["eta_s"], offdesign=["eta_s_char"])
        elif dev == "flow":
            dp = p2 - c["p"]
            v = c["m"] / 985.0
            ln = {"x": [0.3 * v, 0.8 * v, 1.1 * v, 1.7 * v],
                  "y": [1.3 * dp, 1.15 * dp, 0.9 * dp, 0.5 * dp]}
            c["flow"] = ln
            k.set_attr(flow_char={"char_func": CharLine(ln["x"], ln["y"]),
                                  "is_set": True, "param": "v"})
            sa(conns["c1"], p=None)
        else:
            off, des = [], []
            if c["which"] in ("pr", "both"):
                if not c["default"]:
                    m_ = c["map"]
                    k.set_attr(char_map_pr={"char_func": CharMap(
                        m_["x"], m_["y"], m_["z"])})
                    k.char_map_pr.is_set = False
                off.append("char_map_pr")
                sa(conns["c1"], design=["p"])
            if c["which"] in ("eta", "both"):
                if not c["default"]:
                    m_ = c["map2"]
                    k.set_attr(char_map_eta_s={"char_func": CharMap(
                        m_["x"], m_["y"], m_["z"])})
                    k.char_map_eta_s.is_set = False
                off.append("char_map_eta_s")
                des.append("eta_s")
            k.set_attr(design=des, offdesign=off, igva=0)
    elif dev == "valve":
        comp(Source, "so"), comp(Sink, "si")
        v = comp(Valve, "k")
        conn("c0", "so", "out1", "k", "in1", fluid={"water": 1}, m=c["m"],
             p=c["p"], T=350)
        conn("c1", "k", "out1", "si", "in1")
        ln = {"x": [0.3 * c["m"], 0.7 * c["m"], 1.0 * c["m"], 1.1 * c["m"]],
              "y": [0.02 * c["p"], 0.1 * c["p"], 0.15 * c["p"],
                    0.25 * c["p"]]}
        c["flow"] = ln
        v.set_attr(dp_char={"char_func": CharLine(
            ln["x"], ln["y"], extrapolate=c["line"]["ext"]), "is_set": True})
    elif dev in ("hx", "condenser"):
        for l in ("s1", "s2"):
            comp(Source, l)
        for l in ("k1", "k2"):
            comp(Sink, l)
        k = comp(Condenser if dev == "condenser" else HeatExchanger, "k")
        conn("a0", "s1", "out1", "k", "in1")
        conn("a1", "k", "out1", "k1", "in1")
        conn("b0", "s2", "out1", "k", "in2")
        conn("b1", "k", "out2", "k2", "in1")
        if dev == "hx":
            sa(conns["a0"], fluid={c["fluid"]: 1}, m=c["m"], p=c["p"],
                                 T=c["T"])
            sa(conns["a1"], T=c["T"] - 60 - 60 * c["eta"])
            Q = c["m"] * 1050 * (60 + 60 * c["eta"])
            sa(conns["b0"], fluid={"water": 1}, p=2e6, T=300,
                                 m=Q / 4200 / (20 + 40 * c["pr"]))
            k.set_attr(pr1=0.97, pr2=0.98)
            if c["zeta"]:
                k.set_attr(design=["pr1", "pr2"],
                           offdesign=["zeta1", "zeta2"])
            sa(conns["a1"], design=["T"])
            k.set_attr(offdesign=k.offdesign + ["kA_char"])
        else:
            sa(conns["a0"], fluid={"water": 1}, m=c["m"], p0=0.15e5,
                                 h0=2.65e6, T=360 + 40 * c["eta"])
            sa(conns["b0"], fluid={"water": 1}, p=3e5, T=300)
            sa(conns["b1"], T=315 + 10 * c["pr"])
            k.set_attr(pr1=1, pr2=0.98, ttd_u=12, design=["ttd_u"],
                       offdesign=["kA_char"])
            sa(conns["b1"], design=["T"])
            sa(conns["b0"], offdesign=["m"])
        if not c["default"]:
            for i, nm in ((1, "line"), (2, "line2")):
                d = {"char_func": char(c[nm]), "param": c["p%d" % i]}
                if i == 2:
                    d["char_params"] = {"type": "rel", "inconn": 1,
                                        "outconn": 1}
                k.set_attr(**{"kA_char%d" % i: d})
                k.get_attr("kA_char%d" % i).is_set = False
    elif dev in ("simple", "pipe"):
        comp(Source, "so"), comp(Sink, "si")
        k = comp(Pipe if dev == "pipe" else SimpleHeatExchanger, "k")
        liq = c["fluid"] == "N2"
        conn("c0", "so", "out1", "k", "in1",
             fluid={"water" if liq else c["fluid"]: 1}, m=c["m"],
             p=c["p"], T=380 if liq else c["T"])
        conn("c1", "k", "out1", "si", "in1",
             T=(380 if liq else c["T"]) - 30 - 40 * c["eta"],
             design=["T"])
        k.set_attr(pr=0.97, Tamb=to_unit(c, "T", 280.0),
                   offdesign=["kA_char"])
        if c["zeta"]:
            k.set_attr(design=["pr"], offdesign=["zeta", "kA_char"])
        if not c["default"]:
            k.set_attr(kA_char={"char_func": char(c["line"]),
                                "param": c["param"]})
            k.kA_char.is_set = False
    elif dev == "electrolyzer":
        k = comp(WaterElectrolyzer, "k")
        for l in ("s1", "s2"):
            comp(Source, l)
        for l in ("k1", "k2", "k3"):
            comp(Sink, l)
        conn("w0", "s1", "out1", "k", "in1", fluid={"H2O": 1}, p=4e5, T=293)
        conn("w1", "k", "out1", "k1", "in1", T=305)
        conn("f0", "s2", "out1", "k", "in2", p=1e6, T=298)
        conn("o", "k", "out2", "k2", "in1", T=310)
        conn("h", "k", "out3", "k3", "in1", m=c["m"] / 100)
        k.set_attr(eta=c["eta"] * 0.9, pr=0.98, design=["eta"],
                   offdesign=["eta_char"])
        if not c["default"]:
            k.set_attr(eta_char={"char_func": char(c["line"]),
                                 "param": "m_out", "char_params": {
                                     "type": "rel", "inconn": 0,
                                     "outconn": 2}})
            k.eta_char.is_set = False
    elif dev == "engine":
        k = comp(CombustionEngine, "k")
        for l in ("s1", "s2", "s3", "s4"):
            comp(Source, l)
        for l in ("k1", "k2", "k3"):
            comp(Sink, l)
        conn("w0", "s1", "out1", "k", "in1", fluid={"H2O": 1}, p=4e5, T=320)
        conn("w1", "k", "out1", "k1", "in1")
        conn("v0", "s2", "out1", "k", "in2", fluid={"H2O": 1}, p=4e5, T=325)
        conn("v1", "k", "out2", "k2", "in1")
        conn("air", "s3", "out1", "k", "in3", p=1e5, T=300,
             fluid={"N2": 0.7556, "O2": 0.2315, "Ar": 0.0129})
        conn("fuel", "s4", "out1", "k", "in4", T=295, fluid={"CH4": 1})
        conn("gas", "k", "out3", "k3", "in1")
        P = -c["m"] * 1e5
        for n in ("w0", "v0"):
            sa(conns[n], m=-P * 1.0 / 4200 / 25)
        k.set_attr(pr1=0.97, pr2=0.98, P=P, lamb=1.2 + c["pr"])
        if c["zeta"]:
            k.set_attr(design=["pr1", "pr2"], offdesign=["zeta1", "zeta2"])
        if not c["default"]:
            for nm, y in ENGINE:
                k.set_attr(**{nm: {"char_func": char(engine_line(c, y))}})
    net = Net()
    net.nw, net.comps, net.conns, net.busses, net.udes = \
        nw, comps, conns, {}, {}
    net.units = {}
    return net


ENGINE = (("tiP_char", 2.6), ("Q1_char", 0.5), ("Q2_char", 0.35),
          ("Qloss_char", 0.12))


def engine_line(c, y):
    s = c["line"] if y in (2.6, 0.35) else c["line2"]
    return {"x": s["x"], "y": [y * (1 + 0.3 * (v - 1)) for v in s["y"]],
            "ext": s["ext"]}


def scaled(c, ln):
    """absolute characteristics: x-values in the unit of the quantity"""
    if c["type"] == "rel":
        return ln
    s = {"m": c["m"], "v": 1.0, "pr": 1.0}[c["param"]]
    return {"x": [v * s for v in ln["x"]], "y": ln["y"], "ext": ln["ext"]}


def default_line(cls, par, name):
    from tespy import __datapath__
    with open(os.path.join(__datapath__, "char_lines.json")) as f:
        d = json.load(f)[cls][par][name]
    return {"x": [float(v) for v in d["x"]], "y": [float(v) for v in d["y"]],
            "ext": False}


def default_map(par):
    from tespy import __datapath__
    with open(os.path.join(__datapath__, "char_maps.json")) as f:
        return json.load(f)["compressor"][par]["DEFAULT"]


class Des:
    """design values of a connection, from the independent property model"""

    def __init__(self, k):
        s = state_of(k)
        self.m, self.p, self.h, self.T, self.vol = s.m, s.p, s.h, s.T, s.vol
        self.v = s.v
        self.s = s


def expr(c, par, typ, i, o, di, do):
    if typ == "abs":
        return {"m": i.m, "v": i.v, "pr": o.p / i.p, "m_out": o.m}[par]
    return {"m": i.m / di.m, "v": i.v / di.v,
            "pr": (o.p / i.p) / (do.p / di.p), "m_out": o.m / do.m}[par]


def run(net, **kw):
    solve(net, **kw)


def check(c):
    c = json.loads(json.dumps(c))
    if c["type"] == "abs" and c["param"] == "v":
        c["type"] = "rel"
    net = build(c)
    nw, k = net.nw, net.conns
    try:
        run(net)
    except Inconclusive as e:
        raise Inconclusive(str(e), "design")
    des = {n: Des(v) for n, v in k.items()}
    root = tempfile.mkdtemp(prefix="off")
    try:
        path = os.path.join(root, "d")
        nw.save(path)
        if c["how"] in ("path", "local"):
            net = build(c)
        elif c["how"] == "load":
            from props.p06 import wrap
            from tespy.networks import load_network
            ex = os.path.join(root, "e")
            nw.export(ex)
            nw2 = load_network(ex)
            nw2.set_attr(iterinfo=False)
            net = wrap(nw2, net)
        k = net.conns
        kw, mode = {"design_path": path}, "offdesign"
        if c["how"] != "same":
            kw["init_path"] = path
        change(c, net, des)
        if c["how"] == "local":
            mode = local(net, kw)
        run(net, mode=mode, **kw)
        first = judge(c, net, des)
        # a second off-design point of the same network
        c["f"] = 1 + 0.6 * (c["f"] - 1)
        change(c, net, des)
        run(net, mode=mode, **kw)
        judge(c, net, des)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return Outcome(first, [c["dev"], c["how"]])


def change(c, net, des):
    """boundary conditions of the off-design point"""
    k = net.conns
    dev, f = c["dev"], c["f"]
    if dev == "turbine":
        T = des["c0"].T + c["dT"]
        put(c, k["c0"], T=T)
        n = c["stages"]
        put(c, k["c%d" % n], p=des["c%d" % n].p * c["fp"])
        if c["cone"] and c["free"] == "m":
            put(c, k["c0"], p=des["c0"].p * (0.7 + 0.3 * f))
        else:
            put(c, k["c0"], m=des["c0"].m * f)
            if not c["cone"]:
                put(c, k["c0"], p=des["c0"].p)
    elif dev in ("compressor", "pump"):
        put(c, k["c0"], m=des["c0"].m * f, T=des["c0"].T + c["dT"] * 0.4)
        put(c, k["c1"], p=des["c1"].p * c["fp"])
    elif dev == "flow":
        put(c, k["c0"], m=des["c0"].m * f)
    elif dev == "compmap":
        ff = 1 + 0.35 * (f - 1)
        if c.get("yfar"):
            ff = f
        put(c, k["c0"], m=des["c0"].m * ff,
                         T=des["c0"].T + c.get("xfar", c["dT"]))
        q = net.comps["k"]
        if c["igva"] == "var":
            if c["which"] == "pr":
                # pressure ratio prescribed, guide vane angle calculated
                q.set_attr(igva="var")
                put(c, k["c1"], p=des["c1"].p * (1 + 0.5 * (ff - 1)),
                                 design=[])
            else:
                q.set_attr(igva=5.0)
        else:
            q.set_attr(igva=c["igva"])
    elif dev == "valve":
        put(c, k["c0"], m=des["c0"].m * f, p=des["c0"].p * c["fp"])
    elif dev == "hx":
        put(c, k["a0"], m=des["a0"].m * f, T=des["a0"].T + c["dT"])
        put(c, k["b0"], m=des["b0"].m * c["f2"])
    elif dev == "condenser":
        put(c, k["a0"], m=des["a0"].m * f)
        put(c, k["b0"], m=des["b0"].m * c["f2"])
    elif dev in ("simple", "pipe"):
        put(c, k["c0"], m=des["c0"].m * f, T=des["c0"].T + c["dT"])
    elif dev == "electrolyzer":
        put(c, k["h"], m=des["h"].m * f)
    elif dev == "engine":
        net.comps["k"].set_attr(P=-c["m"] * 1e5 * f)


def local(net, kw):
    """every object in off-design by itself, the network in design mode"""
    path = kw.pop("design_path")
    for v in net.comps.values():
        if type(v).__name__ not in ("Source", "Sink"):
            v.set_attr(local_offdesign=True, design_path=path)
    for v in net.conns.values():
        v.set_attr(local_offdesign=True, design_path=path)
    return "design"


def near(a, b, rel, abs_, what, c):
    if not abs(a - b) <= rel * max(abs(a), abs(b)) + abs_:
        raise Violation("%s: %s is %.8g, expected %.8g from the "
                        "characteristic" % (c["dev"], what, a, b),
                        key="%s:%s" % (c["dev"], what))


def judge(c, net, des):
    k = {n: state_of(v) for n, v in net.conns.items()}
    dev = c["dev"]
    moved = False
    for n, s in k.items():
        q = des[n]
        if abs(s.m / q.m - 1) > 0.02 or abs(s.p / q.p - 1) > 0.02 \
                or abs(s.T - q.T) > 2:
            moved = True
    typ = c["type"]
    if dev == "turbine":
        for j in range(c["stages"]):
            i, o = k["c%d" % j], k["c%d" % (j + 1)]
            di, do = des["c%d" % j], des["c%d" % (j + 1)]
            if c["default"]:
                ln, par, ty = default_line("turbine", "eta_s_char",
                                           "DEFAULT"), "m", "rel"
            else:
                ln, par, ty = scaled(c, c["line"]), c["param"], typ
            x = expr(c, par, ty, i, o, di, do)
            hs = i.fl.h_ps(o.p, i.s)
            eta = (o.h - i.h) / (hs - i.h)
            hsd = di.s.fl.h_ps(do.p, di.s.s)
            etad = (do.h - di.h) / (hsd - di.h)
            near(eta, etad * interp(ln["x"], ln["y"], x, ln["ext"]),
                 2e-5, 0, "isentropic efficiency", c)
            if c["cone"]:
                m = di.m * i.p / di.p * math.sqrt(
                    di.p * di.vol / (i.p * i.vol)) * math.sqrt(abs(
                        (1 - (o.p / i.p) ** 2) / (1 - (do.p / di.p) ** 2)))
                near(i.m, m, 2e-5, 1e-6, "mass flow of the cone law", c)
    elif dev in ("compressor", "pump"):
        i, o, di, do = k["c0"], k["c1"], des["c0"], des["c1"]
        if c["default"] and dev == "compressor":
            ln, par, ty = default_line("compressor", "eta_s_char",
                                       "DEFAULT"), "m", "rel"
        else:
            ln, par, ty = scaled(c, c["line"]), c["param"], typ
        x = expr(c, par, ty, i, o, di, do)
        eta = (i.fl.h_ps(o.p, i.s) - i.h) / (o.h - i.h)
        etad = (di.s.fl.h_ps(do.p, di.s.s) - di.h) / (do.h - di.h)
        near(eta, etad * interp(ln["x"], ln["y"], x, ln["ext"]), 5e-5, 0,
             "isentropic efficiency", c)
    elif dev == "flow":
        i, o = k["c0"], k["c1"]
        near(o.p - i.p, interp(c["flow"]["x"], c["flow"]["y"], i.v, False),
             1e-5, 5, "pressure rise", c)
    elif dev == "valve":
        i, o = k["c0"], k["c1"]
        near(i.p - o.p, interp(c["flow"]["x"], c["flow"]["y"], i.m,
                               c["line"]["ext"]), 1e-5, 5, "pressure drop", c)
    elif dev == "compmap":
        i, o, di, do = k["c0"], k["c1"], des["c0"], des["c1"]
        ig = net.comps["k"].igva.val
        x = math.sqrt(di.T / i.T)
        y = i.m * di.p / (di.m * i.p * x)
        if c["which"] in ("pr", "both"):
            m_ = default_map("char_map_pr") if c["default"] else c["map"]
            ya = [v * (1 - ig / 100) for v in row(m_["x"], m_["y"], x)]
            za = [v * (1 - ig / 100) for v in row(m_["x"], m_["z"], x)]
            near(o.p / i.p, do.p / di.p * interp(ya, za, y, False), 2e-5, 0,
                 "pressure ratio", c)
        if c["which"] in ("eta", "both"):
            m_ = default_map("char_map_eta_s") if c["default"] else c["map2"]
            ya = [v * (1 - ig / 100) for v in row(m_["x"], m_["y"], x)]
            za = [v * (1 - ig ** 2 / 10000) for v in row(m_["x"], m_["z"], x)]
            eta = (i.fl.h_ps(o.p, i.s) - i.h) / (o.h - i.h)
            etad = (di.s.fl.h_ps(do.p, di.s.s) - di.h) / (do.h - di.h)
            near(eta, etad * interp(ya, za, y, False), 5e-5, 0,
                 "isentropic efficiency", c)
    elif dev in ("hx", "condenser"):
        kA, kAd = [], []
        for src, out in ((k, kA), (des, kAd)):
            a0, a1, b0, b1 = (src[n] for n in ("a0", "a1", "b0", "b1"))
            T1 = a0.T
            if dev == "condenser":
                st = a0 if src is k else a0.s
                T1 = st.fl.T_sat(st.p)
            dtu, dtl = T1 - b1.T, a1.T - b0.T
            if dtu <= 0 or dtl <= 0:
                raise Inconclusive("crossing temperatures", "crossing")
            out.append(a0.m * (a0.h - a1.h) / log_mean(dtu, dtl))
        if c["default"]:
            cl = "condenser" if dev == "condenser" else "heat exchanger"
            l1 = default_line(cl, "kA_char1", "DEFAULT")
            l2 = default_line(cl, "kA_char2", "DEFAULT")
            x1 = k["a0"].m / des["a0"].m
            x2 = k["b0"].m / des["b0"].m
        else:
            l1, l2 = c["line"], c["line2"]
            x1 = expr(c, c["p1"], "rel", k["a0"], k["a1"], des["a0"],
                      des["a1"])
            x2 = expr(c, c["p2"], "rel", k["b0"], k["b1"], des["b0"],
                      des["b1"])
        f1 = interp(l1["x"], l1["y"], x1, l1["ext"])
        f2 = interp(l2["x"], l2["y"], x2, l2["ext"])
        near(kA[0], kAd[0] * 2 / (1 / f1 + 1 / f2), 1e-4, 0,
             "heat transfer coefficient", c)
        if c["zeta"] and dev == "hx":
            zeta(c, k, des, "a0", "a1")
            zeta(c, k, des, "b0", "b1")
    elif dev in ("simple", "pipe"):
        if c["zeta"]:
            zeta(c, k, des, "c0", "c1")
        i, o, di, do = k["c0"], k["c1"], des["c0"], des["c1"]
        Ta = 280.0
        kA = i.m * (i.h - o.h) / log_mean(i.T - Ta, o.T - Ta)
        kAd = di.m * (di.h - do.h) / log_mean(di.T - Ta, do.T - Ta)
        if c["default"]:
            ln, par = default_line(
                "pipe" if dev == "pipe" else "heat exchanger simple",
                "kA_char", "DEFAULT"), "m"
        else:
            ln, par = c["line"], c["param"]
        x = expr(c, par, "rel", i, o, di, do)
        f = interp(ln["x"], ln["y"], x, ln["ext"])
        near(kA, kAd * 2 / (1 + 1 / f), 1e-4, 0,
             "heat transfer coefficient", c)
    elif dev == "electrolyzer":
        q = net.comps["k"]
        e0 = q.e0
        P = q.P.val
        eta = k["h"].m * e0 / P
        if c["default"]:
            ln = default_line("water electrolyzer", "eta_char", "DEFAULT")
        else:
            ln = c["line"]
        x = k["h"].m / des["h"].m
        near(eta, c["eta"] * 0.9 * interp(ln["x"], ln["y"], x, ln["ext"]),
             1e-4, 0, "efficiency", c)
        near(q.eta.val, eta, 1e-5, 0, "reported efficiency", c)
    elif dev == "engine":
        q = net.comps["k"]
        P, x = q.P.val, q.P.val / (-c["m"] * 1e5)
        near(x, c["f"], 1e-6, 0, "power", c)
        ti = burn([(k["air"].m, k["air"].fl.x), (k["fuel"].m,
                                                 k["fuel"].fl.x)])[2]
        f = {}
        for nm, y in ENGINE:
            ln = default_line("combustion engine", nm, "DEFAULT") \
                if c["default"] else engine_line(c, y)
            f[nm] = interp(ln["x"], ln["y"], x, ln["ext"])
        near(ti, -P * f["tiP_char"], 1e-4, 0, "thermal input", c)
        near(k["w0"].m * (k["w1"].h - k["w0"].h),
             -P * f["Q1_char"], 1e-4, 0, "heat 1", c)
        near(k["v0"].m * (k["v1"].h - k["v0"].h),
             -P * f["Q2_char"], 1e-4, 0, "heat 2", c)
        near(q.Qloss.val, P * f["Qloss_char"], 1e-4, 0, "heat loss", c)
        if c["zeta"]:
            zeta(c, k, des, "w0", "w1")
            zeta(c, k, des, "v0", "v1")
    return moved


def zeta(c, k, des, a, b):
    def z(i, o):
        return (i.p - o.p) / (i.m ** 2 * (i.vol + o.vol))
    near(z(k[a], k[b]), z(des[a], des[b]), 1e-4, 0,
         "zeta value at %s" % a, c)
