"""Busses sum up energy flows with their efficiency characteristics."""
import json
import os
import shutil
import tempfile

from props.p15 import interp
from vf.core import Inconclusive, Outcome, Reject, Violation
from vf.oracle import burn, state_of
from vf.spec import Net, solve

QUICK = 60
THOROUGH = 2500
RULE = ("at least two energy flows on a bus, one of them with an efficiency "
        "other than one, design and off-design converged")
MAX_INCONCLUSIVE = 0.3

KINDS = ["turbine", "turbine", "pump", "compressor", "heat", "cool", "hx",
         "cc", "engine", "electrolyzer"]
PARAMS = {"engine": ["TI", "P", "Q", "Q1", "Q2", "Qloss"],
          "electrolyzer": ["P", "Q"]}
FREE = ("turbine", "pump", "compressor", "heat", "cool", "cc", "electrolyzer")


def draw_char(d):
    k = d.choice(["none", "num", "line", "line", "line"])
    if k == "none":
        return None
    if k == "num":
        return d.float(0.5, 1.2, 35)
    n = d.int(2, 5)
    xs = [float("%.6g" % (0.3 + 1.2 * i / (n - 1))) for i in range(n)]
    ys = [d.float(0.75, 1.0, 25)]
    for i in range(1, n):
        ys.append(float("%.6g" % (ys[-1] * (1 + 0.6 * d.float(-1, 1, 20)
                                            * (xs[i] - xs[i - 1])))))
    if d.bool(40):
        f = d.choice([0.8, 0.8, 0.2])
        xs, ys = [0.0] + xs, [float("%.6g" % (f * ys[0]))] + ys
    return {"x": xs, "y": ys}


def gen(d):
    n = d.choice([1, 2, 2, 3, 3, 4])
    lines = []
    for j in range(n):
        k = d.choice(KINDS)
        lines.append({"kind": k, "m": d.log(0.1, 20, 60),
                      "eta": d.float(0.6, 0.9, 30), "a": d.float(0, 1, 20),
                      "f": d.float(0.45, 1.3, 60)})
    nb = d.choice([1, 1, 2])
    busses, used = [], set()
    for b in range(nb):
        cs = []
        for j in d.subset(range(n), min(2, n), n):
            k = lines[j]["kind"]
            cs.append({"line": j, "char": draw_char(d),
                       "base": d.choice(["component", "component", "bus"]),
                       "param": d.choice(PARAMS[k]) if k in PARAMS else None})
        bus = {"comps": cs, "free": None, "late": d.bool(20)}
        ok = [c["line"] for c in cs if lines[c["line"]]["kind"] in FREE
              and c["line"] not in used and not (
                  c["param"] == "Q" and lines[c["line"]]["kind"] ==
                  "electrolyzer")]
        if any(lines[c["line"]]["kind"] == "engine" for c in cs):
            ok = []     # the shares of the engine change with its load
        if ok and d.bool(60):
            bus["free"] = d.choice(ok)
            used.add(bus["free"])
        busses.append(bus)
    return {"tpl": "bus", "features": [x["kind"] for x in lines],
            "lines": lines, "busses": busses,
            "how": d.choice(["same", "same", "path", "load"]),
            "off": d.choice([1, 2]), "back": d.choice([0, 1.0, 0.9]), "printout": d.bool(30)}


def build(c):
    from tespy import components as C
    from tespy.connections import Bus, Connection
    from tespy.networks import Network
    from tespy.tools.characteristics import CharLine
    net = Net()
    net.nw = Network(iterinfo=False, T_unit="K", p_unit="Pa",
                     h_unit="J / kg")
    free = {b["free"] for b in c["busses"]}

    def comp(cls, lab):
        net.comps[lab] = getattr(C, cls)(lab)
        return net.comps[lab]

    def conn(lab, s, so, t, ti, **kw):
        k = Connection(net.comps[s], so, net.comps[t], ti, label=lab)
        net.nw.add_conns(k)
        k.set_attr(**kw)
        net.conns[lab] = k

    for j, x in enumerate(c["lines"]):
        n, k = "l%d" % j, x["kind"]
        m = None if j in free else x["m"]
        start = {} if m is None else {"m": m}
        if m is None:
            start["m0"] = x["m"]
        if k in ("turbine", "pump", "compressor", "heat", "cool"):
            comp("Source", n + "so"), comp("Sink", n + "si")
            q = comp({"turbine": "Turbine", "pump": "Pump",
                      "compressor": "Compressor"}.get(
                          k, "SimpleHeatExchanger"), n)
            fl = {"turbine": "water", "pump": "water", "compressor": "air",
                  "heat": "water", "cool": "air"}[k]
            p1, T1 = {"turbine": (5e6, 750), "pump": (1e5, 300),
                      "compressor": (1e5, 290), "heat": (5e5, 310),
                      "cool": (2e5, 600)}[k]
            conn(n + "a", n + "so", "out1", n, "in1", fluid={fl: 1}, p=p1,
                 T=T1, **start)
            conn(n + "b", n, "out1", n + "si", "in1")
            if k in ("turbine", "pump", "compressor"):
                q.set_attr(eta_s=x["eta"])
                net.conns[n + "b"].set_attr(p=p1 * {
                    "turbine": 0.05 + 0.3 * x["a"], "pump": 5 + 40 * x["a"],
                    "compressor": 2 + 6 * x["a"]}[k])
            else:
                q.set_attr(pr=0.97)
                net.conns[n + "b"].set_attr(
                    p0=p1 * 0.97, T=T1 + (20 + 60 * x["a"]) * (1 if k == "heat" else -1))
        elif k == "hx":
            for s in ("so1", "so2"):
                comp("Source", n + s)
            for s in ("si1", "si2"):
                comp("Sink", n + s)
            q = comp("HeatExchanger", n)
            q.set_attr(pr1=0.98, pr2=0.97)
            conn(n + "a", n + "so1", "out1", n, "in1", fluid={"air": 1},
                 p=1.5e5, T=600, m=x["m"])
            conn(n + "b", n, "out1", n + "si1", "in1", T=400 + 100 * x["a"])
            conn(n + "c", n + "so2", "out1", n, "in2", fluid={"water": 1},
                 p=5e5, T=300)
            conn(n + "d", n, "out2", n + "si2", "in1", T=350)
        elif k == "cc":
            comp("Source", n + "so1"), comp("Source", n + "so2")
            comp("Sink", n + "si")
            q = comp("CombustionChamber", n)
            q.set_attr(lamb=1.5 + x["a"])
            conn(n + "a", n + "so1", "out1", n, "in1", p=1e5, T=300,
                 fluid={"N2": 0.7556, "O2": 0.2315, "Ar": 0.0129}, **start)
            conn(n + "f", n + "so2", "out1", n, "in2", T=290,
                 m0=x["m"] / 30,
                 fluid={"CH4": 1})
            conn(n + "b", n, "out1", n + "si", "in1")
        elif k == "engine":
            for s in ("so1", "so2", "so3", "so4"):
                comp("Source", n + s)
            for s in ("si1", "si2", "si3"):
                comp("Sink", n + s)
            q = comp("CombustionEngine", n)
            q.set_attr(pr1=0.98, pr2=0.97, lamb=1.2 + x["a"],
                       P=-x["m"] * 1e5)
            for i, s in enumerate("wv"):
                conn(n + s + "0", n + "so%d" % (i + 1), "out1", n,
                     "in%d" % (i + 1), fluid={"H2O": 1}, p=4e5, T=320,
                     m=x["m"])
                conn(n + s + "1", n, "out%d" % (i + 1), n + "si%d" % (i + 1),
                     "in1")
            conn(n + "a", n + "so3", "out1", n, "in3", p=1e5, T=300,
                 fluid={"N2": 0.7556, "O2": 0.2315, "Ar": 0.0129})
            conn(n + "f", n + "so4", "out1", n, "in4", T=290,
                 fluid={"CH4": 1})
            conn(n + "b", n, "out3", n + "si3", "in1")
        elif k == "electrolyzer":
            for s in ("so1", "so2"):
                comp("Source", n + s)
            for s in ("si1", "si2", "si3"):
                comp("Sink", n + s)
            q = comp("WaterElectrolyzer", n)
            q.set_attr(pr=0.98, eta=x["eta"] * 0.9)
            conn(n + "a", n + "so1", "out1", n, "in1", fluid={"H2O": 1},
                 p=4e5, T=293)
            conn(n + "b", n, "out1", n + "si1", "in1", T=305)
            conn(n + "c", n + "so2", "out1", n, "in2", p=1e6, T=298)
            conn(n + "d", n, "out2", n + "si2", "in1", T=310)
            if m is None:
                conn(n + "e", n, "out3", n + "si3", "in1",
                     m0=x["m"] / 100)
            else:
                conn(n + "e", n, "out3", n + "si3", "in1", m=m / 100)
    for i, b in enumerate(c["busses"]):
        bus = Bus("bus%d" % i, printout=c["printout"])
        net.busses["bus%d" % i] = bus
        if not b["late"]:
            add(c, net, i)
        net.nw.add_busses(bus)
        if b["late"]:
            add(c, net, i)
    net.units = {}
    return net


def add(c, net, i):
    from tespy.tools.characteristics import CharLine
    for e in c["busses"][i]["comps"]:
        a = {"comp": net.comps["l%d" % e["line"]], "base": e["base"]}
        if e["param"]:
            a["param"] = e["param"]
        if isinstance(e["char"], dict):
            a["char"] = CharLine(e["char"]["x"], e["char"]["y"])
        elif e["char"] is not None:
            a["char"] = e["char"]
        net.busses["bus%d" % i].add_comps(a)


def flow(c, net, e):
    """energy flow of the component from the states"""
    n, k = "l%d" % e["line"], c["lines"][e["line"]]["kind"]
    st = {q: state_of(v) for q, v in net.conns.items() if q.startswith(n)}

    def dq(a, b):
        return st[n + a].m * (st[n + b].h - st[n + a].h)
    if k in ("turbine", "pump", "compressor", "heat", "cool", "hx"):
        return dq("a", "b")
    if k == "cc":
        return ti(st, n)
    if k == "electrolyzer":
        if e["param"] == "Q":
            return -dq("a", "b")
        from vf.oracle import e0_h2
        # efficiency is specified: power follows from the hydrogen flow
        return st[n + "e"].m * e0_h2() / (
            c["lines"][e["line"]]["eta"] * 0.9)
    q = {"TI": lambda: ti(st, n), "Q1": lambda: -dq("w0", "w1"),
         "Q2": lambda: -dq("v0", "v1"),
         "Q": lambda: -dq("w0", "w1") - dq("v0", "v1"),
         "P": lambda: net.comps[n].P.val,
         "Qloss": lambda: net.comps[n].Qloss.val}
    return q[e["param"]]()


def ti(st, n):
    return burn([(st[n + "a"].m, st[n + "a"].fl.x),
                 (st[n + "f"].m, st[n + "f"].fl.x)])[2]


def eff(e, x):
    ch = e["char"]
    if ch is None:
        return 1.0
    if isinstance(ch, dict):
        return interp(ch["x"], ch["y"], x, False)
    return ch


def near(a, b, rel, abs_, what, key):
    if not abs(a - b) <= rel * max(abs(a), abs(b)) + abs_:
        raise Violation("%s is %.10g, expected %.10g" % (what, a, b),
                        key=key)


def judge(c, net, ref):
    """All reported bus values; returns the reference values (design)."""
    out = {}
    for i, b in enumerate(c["busses"]):
        lab = "bus%d" % i
        bus, tab = net.busses[lab], net.nw.results[lab]
        total = 0.0
        if set(tab.index) != {"l%d" % e["line"] for e in b["comps"]}:
            raise Violation("bus table of %s lists %s" % (lab, list(
                tab.index)), key="rows")
        for e in b["comps"]:
            n = "l%d" % e["line"]
            row = tab.loc[n]
            pc = flow(c, net, e)
            who = "%s of %s (%s%s) on %s" % (
                "%s", n, c["lines"][e["line"]]["kind"],
                " " + e["param"] if e["param"] else "", lab)
            near(row["component value"], pc, 2e-5, 0.05,
                 who % "component value", "component value")
            pb = row["bus value"]
            r = None if ref is None else ref[lab, n]
            if e["base"] == "component":
                f = eff(e, 1 if r is None else abs(pc / r))
                near(pb, pc * f, 3e-5, 0.05, who % "bus value",
                     "bus value:component")
            else:
                f = eff(e, 1 if r is None else pb / r)
                near(pb * f, pc, 3e-5, 0.05,
                     who % "component value implied by the bus value",
                     "bus value:bus")
            near(row["efficiency"], f, 1e-4, 0, who % "efficiency",
                 "efficiency")
            val = pc if e["base"] == "component" else pb
            if ref is None:
                out[lab, n] = val
                near(row["design value"], val, 2e-5, 0.05,
                     who % "design value", "design value")
            else:
                near(row["design value"], r, 2e-5, 0.05,
                     who % "design value", "design value")
            total += pb
        near(bus.P.val, total, 1e-6, 0.05, "total of " + lab, "total")
        if b["free"] is not None:
            near(total, b["P"], 1e-5, 0.05, "specified total of " + lab,
                 "specified total")
    return out


def targets(c, net, ref, loads):
    """Totals to specify for the busses with a free flow: the total at which
    the free mass flow has the drawn value."""
    for i, b in enumerate(c["busses"]):
        if b["free"] is None:
            continue
        tot = 0.0
        for e in b["comps"]:
            n = "l%d" % e["line"]
            pc = loads["bus%d" % i, n]
            r = None if ref is None else ref["bus%d" % i, n]
            if e["base"] == "component":
                tot += pc * eff(e, 1 if r is None else abs(pc / r))
            elif r is None:
                tot += pc / eff(e, 1)
            else:
                lo, hi = sorted((0.01 * pc, 30 * pc))
                g = lambda v: abs(v) * eff(e, v / r) - abs(pc)
                s = 1 if pc > 0 else -1
                lo, hi = 0.01 * abs(pc), 30 * abs(pc)
                if g(s * lo) > 0 or g(s * hi) < 0:
                    raise Inconclusive("no bus value", "no bus value")
                for _ in range(200):
                    mid = (lo + hi) / 2
                    if g(s * mid) > 0:
                        hi = mid
                    else:
                        lo = mid
                tot += s * lo
        b["P"] = tot
        net.busses["bus%d" % i].set_attr(P=tot)


def check(c):
    c = json.loads(json.dumps(c))
    free = {b["free"]: None for b in c["busses"] if b["free"] is not None}
    # the energy flows of the lines, from a network without free flows
    c0 = json.loads(json.dumps(c))
    for b in c0["busses"]:
        b["free"] = None
    base = build(c0)
    solve(base)
    judge(c0, base, None)
    loads = {("bus%d" % i, "l%d" % e["line"]): flow(c0, base, e)
             for i, b in enumerate(c0["busses"]) for e in b["comps"]}
    net = build(c)
    targets(c, net, None, loads)
    solve(net)
    ref = judge(c, net, None)
    root = tempfile.mkdtemp(prefix="bus")
    try:
        path = os.path.join(root, "d")
        net.nw.save(path)
        kw = {"design_path": path}
        if c["how"] == "path":
            net = build(c)
            for i, b in enumerate(c["busses"]):
                if b["free"] is not None:
                    net.busses["bus%d" % i].set_attr(P=b["P"])
            kw["init_path"] = path
        elif c["how"] == "load":
            from props.p06 import wrap
            from tespy.networks import load_network
            ex = os.path.join(root, "e")
            net.nw.export(ex)
            nw = load_network(ex)
            nw.set_attr(iterinfo=False)
            net = wrap(nw, net)
            kw["init_path"] = path
        for k in range(c["off"]):
            fs = [1 + (x["f"] - 1) * (0.5 if k else 1) for x in c["lines"]]
            new = {}
            for j, x in enumerate(c["lines"]):
                load(c, net, j, fs[j], j in free)
            for i, b in enumerate(c["busses"]):
                for e in b["comps"]:
                    key = "bus%d" % i, "l%d" % e["line"]
                    new[key] = loads[key] * fs[e["line"]]
            targets(c, net, ref, new)
            solve(net, mode="offdesign", **kw)
            judge(c, net, ref)
        if c["back"]:
            # design mode again: other loads become the reference
            for i, b in enumerate(c["busses"]):
                if b["free"] is not None:
                    net.busses["bus%d" % i].set_attr(P=None)
                    b["free"] = None
            for j, x in enumerate(c["lines"]):
                load(c, net, j, c["back"], False)
            solve(net)
            new = judge(c, net, None)
            for k in ref:
                if c["lines"][int(k[1][1:])]["kind"] != "engine":
                    near(new[k], ref[k] * c["back"], 1e-4, 0.1,
                         "reference value of %s on %s" % k, "new reference")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    many = any(len(b["comps"]) > 1 for b in c["busses"])
    inter = any(e["char"] not in (None, 1.0) for b in c["busses"]
                for e in b["comps"])
    return Outcome(many and inter, [c["how"]] + ["free"] * bool(free))


def load(c, net, j, f, free):
    """off-design load of a line"""
    n, x = "l%d" % j, c["lines"][j]
    if free:
        return
    if x["kind"] == "engine":
        net.comps[n].set_attr(P=-x["m"] * 1e5 * f)
    elif x["kind"] == "electrolyzer":
        net.conns[n + "e"].set_attr(m=x["m"] / 100 * f)
    else:
        net.conns[n + "a"].set_attr(m=x["m"] * f)
