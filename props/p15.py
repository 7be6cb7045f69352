"""Characteristic lines and maps interpolate linearly and never change."""
import json
import os

from vf.core import Outcome, Reject, Violation, require

QUICK = 600
THOROUGH = 40000
RULE = ("the characteristic has at least three points (lines) or speed lines "
        "(maps), or its data are invalid, and it was evaluated inside and at "
        "or beyond the ends of its range")


def grid(d, n, lo, hi):
    """strictly increasing"""
    xs = [d.float(0.05, 1.0, 40) for _ in range(n)]
    out, a = [], d.float(lo, lo + 0.3 * (hi - lo), 30)
    tot = sum(xs)
    for v in xs:
        out.append(float("%.7g" % a))
        a += v / tot * (hi - lo) * 0.9
    return out


def gen(d):
    kind = d.choice(["line"] * 4 + ["map"] * 4 + ["badline", "badmap",
                                                  "default", "custom"])
    case = {"kind": kind, "tpl": kind, "features": [kind]}
    n = d.int(2, 7)
    s = d.choice([1.0, 1.0, 1e5, 1e-3])
    case["as"] = d.choice(["list", "array", "int-array", "tuple-array"])
    if kind in ("line", "badline", "custom"):
        case["x"] = grid(d, n, d.choice([-2.0, 0.0, 0.4]) * s, 3.0 * s)
        case["y"] = [float("%.7g" % (s * d.float(-2, 2, 200)))
                     for _ in range(n)]
        case["extra"] = d.bool(45)
        if kind == "badline":
            case["y"] = case["y"][:-1] if d.bool() else case["y"] + [1.0]
    elif kind in ("map", "badmap"):
        m = d.int(2, 6)
        case["x"] = grid(d, n, 0.2, 2.0)
        case["y"] = [grid(d, m, 0.1 * (i + 1), 3.0) for i in range(n)]
        case["z"] = [[d.float(-2, 2, 200) for _ in range(m)]
                     for i in range(n)]
        if kind == "badmap":
            r = d.int(0, 2)
            if r == 0:
                case["y"] = case["y"][:-1]
                case["z"] = case["z"][:-1]
            elif r == 1:
                case["z"] = [r_[:-1] if m > 2 else r_ + [1.0]
                             for r_ in case["z"]]
            else:
                case["z"] = case["z"][:-1]
    elif kind == "default":
        case["pick"] = d.int(0, 10 ** 6)
        case["cmap"] = d.bool(25)
    case["q"] = []
    for _ in range(d.int(3, 12)):
        case["q"].append([
            d.choice(["in", "in", "at", "below", "above", "far"]),
            d.float(0, 1, 1000), d.choice(["in", "in", "at", "below",
                                           "above"]), d.float(0, 1, 1000)])
    case["igva"] = d.choice([0, 0, 15.0, -20.0])
    return case


def point(xs, how, u):
    n = len(xs)
    if how == "at":
        return xs[min(n - 1, int(u * n))]
    span = xs[-1] - xs[0]
    if how == "below":
        return xs[0] - u * span
    if how == "above":
        return xs[-1] + u * span
    if how == "far":
        return xs[-1] + (u - 0.5) * 200 * span
    return xs[0] + u * span


def interp(xs, ys, x, extra):
    """reference: linear interpolation, constant or linear beyond the ends"""
    n = len(xs)
    if x < xs[0] or x > xs[-1]:
        if not extra:
            return ys[0] if x < xs[0] else ys[-1]
        i = 0 if x < xs[0] else n - 2
    else:
        i = 0
        while i < n - 2 and x > xs[i + 1]:
            i += 1
    t = (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[i] + t * (ys[i + 1] - ys[i])


def row(xs, rows, x):
    """rows of a map at x (constant beyond the ends)"""
    if x <= xs[0]:
        return list(rows[0])
    if x >= xs[-1]:
        return list(rows[-1])
    i = 0
    while x > xs[i + 1]:
        i += 1
    t = (x - xs[i]) / (xs[i + 1] - xs[i])
    return [a + t * (b - a) for a, b in zip(rows[i], rows[i + 1])]


def near(a, b, scale):
    return abs(a - b) <= 1e-9 * max(abs(scale), abs(a), abs(b)) + 1e-12


def arr(v, how):
    import numpy as np
    if how == "list":
        return v
    if how == "tuple-array":
        return np.array(v, dtype=object) if v and not isinstance(
            v[0], list) else np.array(v)
    return np.array(v)


def check(case):
    import numpy as np
    from tespy.tools import characteristics as ch
    kind = case["kind"]
    if kind in ("line", "badline", "custom"):
        x, y = case["x"], case["y"]
        if kind == "custom":
            home = os.path.join(os.environ["HOME"], ".tespy", "data")
            if os.path.realpath(os.environ["HOME"]) in ("/root", "/"):
                raise Reject        # only ever write into a scratch home
            os.makedirs(home, exist_ok=True)
            with open(os.path.join(home, "char_lines.json"), "w") as f:
                json.dump({"mine": {"x": x, "y": y},
                           "other": {"x": [0, 1], "y": [7, 7]}}, f)
            obj = ch.load_custom_char("mine", ch.CharLine)
            extra = False
        else:
            how = case["as"]
            xa, ya = arr(x, how), arr(y, how)
            if how == "int-array" and kind == "line":
                ya = np.round(np.array(y)).astype(int)
                y = [float(v) for v in ya]
            keep = (json.dumps(np.array(xa, dtype=float).tolist()),
                    json.dumps(np.array(ya, dtype=float).tolist()))
            try:
                obj = ch.CharLine(xa, ya, extrapolate=case["extra"])
            except ValueError:
                if kind == "badline":
                    return Outcome(True, ["invalid line refused"])
                raise
            require(kind != "badline", "%d x-values and %d y-values accepted"
                    % (len(x), len(y)), "invalid line accepted")
            extra = case["extra"]
        use_line(case, obj, x, y, extra)
        if kind == "line":
            require(keep == (
                json.dumps(np.array(xa, dtype=float).tolist()),
                json.dumps(np.array(ya, dtype=float).tolist())),
                "input data of a characteristic line changed")
            s = obj._serialize()
            require(s["x"] == x and s["y"] == y and s["extrapolate"] is extra,
                    "serialized characteristic line differs")
            o2 = ch.CharLine(**json.loads(json.dumps(s)))
            use_line(case, o2, x, y, extra)
        return Outcome(len(x) >= 3, [kind])
    if kind in ("map", "badmap"):
        x, y, z = case["x"], case["y"], case["z"]
        how = case["as"] if kind == "map" else "list"
        if how == "int-array":
            how = "array"
        xa, ya, za = arr(x, how), arr(y, how), arr(z, how)
        try:
            obj = ch.CharMap(xa, ya, za)
        except ValueError:
            if kind == "badmap":
                return Outcome(True, ["invalid map refused"])
            raise
        require(kind != "badmap", "inconsistent map accepted",
                "invalid map accepted")
        use_map(case, obj, x, y, z)
        s = obj._serialize()
        require(s == {"x": x, "y": y, "z": z}, "serialized map differs")
        use_map(case, ch.CharMap(**json.loads(json.dumps(s))), x, y, z)
        return Outcome(len(x) >= 3, [kind])
    # defaults
    from tespy import __datapath__
    fn = "char_maps.json" if case["cmap"] else "char_lines.json"
    with open(os.path.join(__datapath__, fn)) as f:
        data = json.load(f)
    names = sorted((c, p, n) for c in data for p in data[c]
                   for n in data[c][p])
    c, p, n = names[case["pick"] % len(names)]
    dd = data[c][p][n]
    cls = ch.CharMap if case["cmap"] else ch.CharLine
    a = ch.load_default_char(c, p, n, cls)
    b = ch.load_default_char(c, p, n, cls)
    if case["cmap"]:
        use_map(case, a, dd["x"], dd["y"], dd["z"])
    else:
        use_line(case, a, dd["x"], dd["y"], False)
        # changing one instance does not influence another
        a.y *= 2
        a.extrapolate = True
        use_line(case, b, dd["x"], dd["y"], False)
    return Outcome(True, ["default"])


def use_line(case, obj, x, y, extra):
    x = [float(v) for v in x]
    y = [float(v) for v in y]
    scale = max(abs(v) for v in y)
    for how, u, _, _ in case["q"]:
        q = point(x, how, u)
        e = interp(x, y, q, extra)
        g = obj.evaluate(q)
        if not isinstance(g, float) or not near(g, e, max(scale, abs(e))):
            raise Violation(
                "characteristic line x=%s y=%s extrapolate=%s at %r: %r, "
                "expected %r" % (x, y, extra, q, g, e), "line:" + how)
    if all(near(a, b, 1) for a, b in zip(obj.x, x)) is False:
        raise Violation("x-values of a line changed")
    if [float(v) for v in obj.y] != y or len(obj.x) != len(x):
        raise Violation("values of a line changed by evaluation")


def use_map(case, obj, x, y, z):
    x = [float(v) for v in x]
    first = None
    for rnd in range(2):
        got = []
        for how, u, how2, u2 in case["q"]:
            qx = point(x, how, u)
            ya, za = row(x, y, qx), row(x, z, qx)
            qy = point(ya, how2, u2)
            e = interp(ya, za, qy, False)
            g = obj.evaluate(qx, qy)
            if not isinstance(g, float) or not near(
                    g, e, max(abs(v) for v in za)):
                raise Violation(
                    "characteristic map x=%s y=%s z=%s at %r, %r: %r, "
                    "expected %r" % (x, y, z, qx, qy, g, e), "map:" + how)
            # the arrays handed out may be modified (inlet guide vane angle)
            yarr, zarr = obj.evaluate_x(qx)
            yarr *= (1 - case["igva"] / 100)
            zarr *= (1 - case["igva"] / 100)
            yarr = obj.get_domain_errors_x(qx, "component")
            yarr *= (1 - case["igva"] / 100)
            obj.get_domain_errors_y(qy, yarr, "component")
            got.append(g)
        if first is not None and got != first:
            raise Violation("a map yields different values when it is "
                            "evaluated again", "map:history")
        first = got
