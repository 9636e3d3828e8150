"""Layout programs: generation, construction through the public API, and the
independent model of what they contain.

A spec is JSON: {"name", "unit", "precision", "cells": [{"name", "els": [...]}]}.
Coordinates in a spec are in database units (possibly with a fraction that is
not close to one half); `grid` converts them to user units.
Elements of a cell reference earlier cells of the list (by name), or a cell
that does not exist anywhere (missing reference).
"""
import math

import numpy

UNITS = [(1e-6, 1e-9)] * 6 + [(1e-6, 5e-9), (1e-6, 1e-10), (1e-3, 1e-6), (1.0, 1e-3), (1e-9, 1e-12),
                              (1e-6, 1e-6), (2.54e-5, 1e-9), (1e-6, 2.5e-9)]
NAMECH = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_?$"
TEXTCH = "".join(chr(c) for c in range(32, 127))
ANCHORS = {"nw": 0, "n": 1, "ne": 2, "w": 4, "o": 5, "e": 6, "sw": 8, "s": 9, "se": 10}
ROT = [None] * 6 + [0.0, 90.0, 180.0, 270.0, -90.0, 45.0, 33.3, 359.999, 1e-3, 720.0, 123.456, 30, 60.0, 315.0]
MAG = [None] * 6 + [1.0, 2.0, 0.5, 1.37, 16.0, 256.0, 0.0625, 1e-3, 3, 15.999999999999996, 1.0000000000000002]
NOROT = [None, 0.0, 90.0, 180.0, 270.0]


class Opt(object):
    """What the generator may use."""

    def __init__(self, **k):
        self.cells = (1, 5)
        self.els = (0, 5)
        self.kinds = ["poly"] * 4 + ["pset", "pset", "rect", "round", "text", "flex", "flex", "flexg", "flexg",
                                     "robust", "robustg", "label", "label", "sref", "sref", "aref", "aref"]
        self.big = 0.02          # elements beyond one record
        self.far = 0.03          # coordinates near the limits of the format
        self.props = 0.3
        self.missing = 0.05      # references to cells that do not exist
        self.frac = 0.2
        self.hugearr = 0.03
        self.cr = ([1, 2, 3, 5], [1, 2, 4])
        self.callbacks = True
        self.oneof = 0.02
        self.empty_strings = True
        self.mags = MAG
        self.rots = ROT
        self.curves = True
        self.range = 2000
        self.__dict__.update(k)


def name(rng, used, maxlen=12):
    while True:
        if rng.random() < 0.03:
            n = rng.randint(30, 120)
        else:
            n = rng.randint(1, maxlen)
        s = "".join(rng.choice(NAMECH) for _ in range(n))
        if s not in used:
            used.add(s)
            return s


def coord(rng, o, span=None):
    c = rng.randint(-(span or o.range), span or o.range)
    if rng.random() < o.frac:
        c += rng.choice([0.3, -0.3, 0.25, -0.2, 0.4, -0.4])
    return c


def pt(rng, o, span=None):
    return [coord(rng, o, span), coord(rng, o, span)]


def props(rng, o):
    if rng.random() >= o.props:
        return {}
    out = {}
    for _ in range(rng.randint(1, 3)):
        attr = rng.choice([1, 2, 3, 7, 126, 127, 300, 32767])
        n = rng.choice([1, 2, 3, 4, 5, 10, 11, 40, 125, 126, 127, 128, 200])
        if o.empty_strings and rng.random() < 0.05:
            n = 0
        out[str(attr)] = "".join(rng.choice(TEXTCH) for _ in range(n))
    return out


def layer(rng):
    return rng.choice([0, 1, 2, 3, 3, 10, 63, 255, 256, 1000, 32767])


def polypts(rng, o):
    if rng.random() < o.big:
        n = rng.choice([8189, 8190, 8191, 8192, 16379, 16380, 16381, 24571])
        r = rng.randint(20000, 60000)
        return {"circle": [n, r, rng.randint(-1000, 1000)]}
    if rng.random() < o.far:
        m = 2 ** 31 - 1
        a = rng.choice([m, m - 1, 10 ** 9, 2 ** 30])
        return [[0, 0], [a, 1], [-a - 1 if a == m else -a, rng.randint(-a, a)]]
    n = rng.choice([3, 3, 4, 4, 5, 6, 8])
    return [pt(rng, o) for _ in range(n)]


def expand_pts(p):
    if isinstance(p, dict):
        n, r, off = p["circle"]
        return [[round(r * math.cos(2 * math.pi * i / n)) + off, round(r * math.sin(2 * math.pi * i / n)) - off]
                for i in range(n)]
    return p


def pathpts(rng, o, big=False):
    if big and rng.random() < o.big * 2:
        n = rng.choice([8190, 8191, 8192, 16382, 16383, 20000])
        return {"zigzag": [n, rng.randint(3, 9)]}
    n = rng.choice([2, 2, 3, 3, 4, 5])
    out = [pt(rng, o)]
    while len(out) < n:
        p = pt(rng, o)
        if abs(p[0] - out[-1][0]) + abs(p[1] - out[-1][1]) > 40:
            out.append(p)
    if rng.random() < 0.1:
        i = rng.randrange(len(out))
        out.insert(i, list(out[i]))      # duplicate point
    return out


def expand_path(p):
    if isinstance(p, dict):
        n, s = p["zigzag"]
        return [[i * s, (i % 2) * s * 3] for i in range(n)]
    return p


def segs(rng, o, gds, n):
    """Extra construction steps of a flex path; sizes in dbu."""
    out = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.choice(["segment", "segment", "arc", "turn", "bezier", "smooth", "parametric"] if o.curves else ["segment"])
        var = {}
        if not gds and rng.random() < 0.2:
            var["width"] = rng.choice([rng.randint(5, 60), [rng.randint(5, 60) for _ in range(n)]])
        if rng.random() < 0.1:
            var["offset"] = [rng.randint(-50, 50) + 60 * i for i in range(n)]
        if k == "segment":
            out.append(["segment", [rng.choice([-1, 1]) * rng.randint(100, 900), rng.randint(-900, 900)], True, var])
        elif k == "arc":
            a0 = rng.choice([0, 90, 180, 45])
            out.append(["arc", rng.randint(300, 900), a0, a0 + rng.choice([-90, 90, 135]), var])
        elif k == "turn":
            out.append(["turn", rng.randint(300, 900), rng.choice(["l", "r", "ll", "rr"]), var])
        elif k == "bezier":
            out.append(["bezier", [[rng.randint(200, 900), rng.randint(-400, 400)], [rng.randint(1000, 2000), rng.randint(-400, 400)]], var])
        elif k == "smooth":
            out.append(["smooth", [[rng.randint(300, 900), rng.randint(-300, 300)], [rng.randint(1200, 2000), rng.randint(-300, 300)]], var])
        else:
            out.append(["parametric", rng.choice(["sine", "parab"]), rng.randint(500, 1500), var])
    return out


def element(rng, o, cellnames):
    k = rng.choice(o.kinds)
    if k in ("sref", "aref") and not cellnames:
        k = "poly"
    e = {"k": k}
    if k == "poly":
        e.update(p=polypts(rng, o), l=layer(rng), d=layer(rng))
    elif k == "pset":
        e.update(ps=[polypts(rng, o) for _ in range(rng.randint(1, 3))], l=layer(rng), d=layer(rng))
    elif k == "rect":
        e.update(a=pt(rng, o), b=pt(rng, o), l=layer(rng), d=layer(rng))
    elif k == "round":
        e.update(c=pt(rng, o), r=rng.randint(50, 900), l=layer(rng), d=layer(rng))
        if rng.random() < 0.5:
            e["arc"] = [rng.choice([0, 30, 90]), rng.choice([120, 180, 271])]
        if rng.random() < 0.3:
            e["ri"] = e["r"] // 2
    elif k == "text":
        e.update(t="".join(rng.choice("AbC1 x\n") for _ in range(rng.randint(1, 4))), s=rng.randint(90, 900), at=pt(rng, o),
                 l=layer(rng), d=layer(rng))
    elif k in ("flex", "flexg", "robust", "robustg"):
        n = rng.choice([1, 1, 1, 2, 3])
        gds = k.endswith("g")
        far = gds and k == "flexg" and rng.random() < o.big
        e.update(n=n, l=[layer(rng) for _ in range(n)], d=[layer(rng) for _ in range(n)],
                 w=[rng.choice([0, 2, 7, 10, 20, 33, 50]) if gds else rng.choice([2, 7, 10, 20, 33, 50]) for _ in range(n)])
        if n > 1 or rng.random() < 0.15:
            e["o"] = [rng.randint(-20, 20) + 90 * (i - (n - 1) / 2) for i in range(n)]
        else:
            e["o"] = [0]
        ends = ["flush", "round", "extended"] + ([[rng.randint(0, 50), rng.randint(0, 50)], [rng.choice([-5, 0, 7]), rng.randint(0, 9)]])
        if not gds:
            ends += ["smooth"]
            if k == "flex" and o.callbacks:
                ends += ["cb:cap"]
        e["e"] = [rng.choice(ends) for _ in range(n)]
        e["wt"] = rng.random() < 0.6 or not gds
        if not e["wt"]:
            e["w"] = [max(w, 1) for w in e["w"]]
        if k.startswith("flex"):
            e["p"] = pathpts(rng, o, big=gds)
            corners = ["natural"] * 3 + ["circular bend"]
            if not gds:
                corners += ["miter", "bevel", "round", "smooth"] + (["cb:join"] if o.callbacks else [])
            c = rng.choice(corners)
            if isinstance(e["p"], dict):
                c = "natural"
                e["o"] = [0] if n == 1 else e["o"]
            e["c"] = c
            if c == "circular bend":
                e["br"] = rng.randint(30, 70)
                if len(e["p"]) > 2:
                    # well-separated corners, no duplicates
                    e["p"] = [[400 * i, (i % 2) * 700] for i in range(len(e["p"]))]
            elif not isinstance(e["p"], dict):
                e["s"] = segs(rng, o, gds, n)
            if gds and rng.random() < 0.05 and o.oneof:
                pass
        else:
            e["p"] = pt(rng, o)
            st = []
            heading = 0
            for _ in range(rng.randint(1, 3)):
                kk = rng.choice(["segment", "segment", "arc", "turn", "bezier", "parametric"] if o.curves else ["segment"])
                var = {}
                if not gds and rng.random() < 0.3:
                    var["width"] = rng.choice([rng.randint(5, 60), [rng.randint(5, 60) for _ in range(n)],
                                               "cb:w%d" % rng.randint(10, 30) if o.callbacks else 12])
                if rng.random() < 0.1:
                    var["offset"] = [90 * (i - (n - 1) / 2) + rng.randint(-10, 10) for i in range(n)]
                if kk == "segment":
                    st.append(["segment", [rng.randint(200, 900), rng.randint(-300, 300)], True, var])
                elif kk == "arc":
                    st.append(["arc", rng.randint(400, 900), -90, rng.choice([-45, 0]), var])
                elif kk == "turn":
                    st.append(["turn", rng.randint(400, 900), rng.choice(["l", "r"]), var])
                elif kk == "bezier":
                    st.append(["bezier", [[rng.randint(300, 600), 0], [rng.randint(800, 1500), rng.randint(-200, 200)]], var])
                else:
                    st.append(["parametric", rng.choice(["sine", "parab"]), rng.randint(800, 1500), var])
                if kk in ("arc", "turn"):
                    break
            if st[0][0] == "turn":
                st.insert(0, ["segment", [500, 0], True, {}])
            e["s"] = st
    elif k == "label":
        n = rng.choice([1, 2, 3, 5, 8, 13, 60])
        if o.empty_strings and rng.random() < 0.03:
            n = 0
        if rng.random() < 0.02:
            n = rng.choice([511, 512, 5000])
        e.update(t="".join(rng.choice(TEXTCH) for _ in range(n)), at=pt(rng, o), an=rng.choice(sorted(ANCHORS)),
                 r=rng.choice(o.rots), m=rng.choice(o.mags), x=rng.random() < 0.25, l=layer(rng), d=layer(rng))
    else:
        ref = rng.choice(cellnames)
        if rng.random() < o.missing:
            ref = "MISSING%d" % rng.randint(0, 1)
        e.update(ref=ref, at=pt(rng, o), r=rng.choice(o.rots), m=rng.choice(o.mags), x=rng.random() < 0.35)
        if k == "aref":
            e.update(cr=[rng.choice(o.cr[0]), rng.choice(o.cr[1])],
                     sp=[rng.choice([-1, 1]) * rng.randint(1, 900), rng.choice([-1, 1, 1]) * rng.randint(1, 900)])
            if rng.random() < o.hugearr:
                e["cr"] = [32767, 1] if rng.random() < 0.5 else [1, 300]
    p = props(rng, o)
    if p:
        e["props"] = p
    return e


def gen(rng, o=None, ncells=None):
    o = o or Opt()
    used = set()
    unit, prec = rng.choice(UNITS)
    s = {"name": "".join(rng.choice(NAMECH) for _ in range(rng.choice([1, 2, 3, 7, 8, 31]))),
         "unit": unit, "precision": prec, "cells": []}
    for i in range(ncells if ncells is not None else rng.randint(*o.cells)):
        n = name(rng, used)
        c = {"name": n, "els": []}
        prev = [x["name"] for x in s["cells"]]
        for _ in range(rng.randint(*o.els)):
            c["els"].append(element(rng, o, prev))
        s["cells"].append(c)
    return s


def fix(spec, allow_missing=True):
    """Drops references to cells that are gone (after shrinking)."""
    names = set(c["name"] for c in spec["cells"])
    for c in spec["cells"]:
        c["els"] = [e for e in c["els"]
                    if e["k"] not in ("sref", "aref") or e["ref"] in names or e["ref"].startswith("MISSING")]
    return spec


# -- construction ------------------------------------------------------------
class Hooks(object):
    """User callbacks; `before(name)` may raise (fault injection)."""

    def __init__(self, before=None):
        self.before = before or (lambda name: None)
        self.calls = 0

    def hit(self, name):
        self.calls += 1
        self.before(name)

    def cap(self):
        def cap(p0, v0, p1, v1):
            self.hit("cap")
            p0, p1 = numpy.array(p0), numpy.array(p1)
            # square-ish cap through the middle, slightly outside
            m = 0.5 * (p0 + p1)
            v = numpy.array(v0) / math.hypot(*v0) if math.hypot(*v0) > 0 else numpy.array((1.0, 0.0))
            h = 0.25 * math.hypot(*(p1 - p0))
            return [p0, m + v * h, p1]
        return cap

    def join(self):
        def join(p0, v0, p1, v1, p2, w):
            self.hit("join")
            return [p0, 0.5 * (numpy.array(p0) + numpy.array(p1)), p1]
        return join

    def width(self, w):
        def width(u):
            self.hit("width")
            return w * (1 + 0.5 * u)
        return width

    def curve(self, kind, size):
        if kind == "sine":
            def f(u):
                self.hit("curve")
                return numpy.array((size * u, 0.1 * size * math.sin(2 * math.pi * u)))
        else:
            def f(u):
                self.hit("curve")
                return numpy.array((size * u, 0.2 * size * u * u))
        return f


def grid(spec):
    return spec["precision"] / spec["unit"]


def _var(var, g, hooks):
    out = {}
    if "width" in var:
        w = var["width"]
        if isinstance(w, str):
            w = hooks.width(int(w.split("w")[1]) * g)
        elif isinstance(w, list):
            w = [x * g for x in w]
        else:
            w = w * g
        out["width"] = w
    if "offset" in var:
        out["offset"] = [x * g for x in var["offset"]]
    return out


def step(path, st, g, hooks, robust=False):
    k = st[0]
    v = _var(st[-1], g, hooks)
    if k == "segment":
        path.segment((st[1][0] * g, st[1][1] * g), relative=st[2], **v)
    elif k == "arc":
        path.arc(st[1] * g, math.radians(st[2]), math.radians(st[3]), **v)
    elif k == "turn":
        path.turn(st[1] * g, st[2], **v)
    elif k == "bezier":
        path.bezier([(x * g, y * g) for x, y in st[1]], **v)
    elif k == "smooth":
        path.smooth([(x * g, y * g) for x, y in st[1]], **v)
    elif k == "parametric":
        path.parametric(hooks.curve(st[1], st[2] * g), **v)
    else:
        raise AssertionError(k)


def _unwrap(v, n):
    """Single values are passed as scalars, to use both forms of the API."""
    return v[0] if n == 1 else list(v)


def make(gd, e, g, cells, hooks):
    """Builds one element; `cells` maps names to Cell objects."""
    k = e["k"]
    if k == "poly":
        el = gd.Polygon([(x * g, y * g) for x, y in expand_pts(e["p"])], e["l"], e["d"])
    elif k == "pset":
        el = gd.PolygonSet([[(x * g, y * g) for x, y in expand_pts(p)] for p in e["ps"]], e["l"], e["d"])
    elif k == "rect":
        el = gd.Rectangle((e["a"][0] * g, e["a"][1] * g), (e["b"][0] * g, e["b"][1] * g), e["l"], e["d"])
    elif k == "round":
        a = e.get("arc", [0, 0])
        el = gd.Round((e["c"][0] * g, e["c"][1] * g), e["r"] * g, e.get("ri", 0) * g, math.radians(a[0]), math.radians(a[1]),
                      tolerance=0.4 * g, layer=e["l"], datatype=e["d"])
    elif k == "text":
        el = gd.Text(e["t"], e["s"] * g, (e["at"][0] * g, e["at"][1] * g), layer=e["l"], datatype=e["d"])
    elif k in ("flex", "flexg"):
        n = e["n"]
        ends = [hooks.cap() if x == "cb:cap" else (tuple(y * g for y in x) if isinstance(x, list) else x) for x in e["e"]]
        c = hooks.join() if e["c"] == "cb:join" else e["c"]
        el = gd.FlexPath([(x * g, y * g) for x, y in expand_path(e["p"])], _unwrap([w * g for w in e["w"]], n),
                         [x * g for x in e["o"]] if (n > 1 or e["o"] != [0]) else 0,
                         corners=c, ends=ends if n > 1 else ends[0], bend_radius=e.get("br", 0) * g or None,
                         tolerance=0.4 * g, gdsii_path=k == "flexg", width_transform=e["wt"],
                         layer=_unwrap(e["l"], n), datatype=_unwrap(e["d"], n))
        for st in e.get("s", ()):
            step(el, st, g, hooks)
    elif k in ("robust", "robustg"):
        n = e["n"]
        ends = [tuple(y * g for y in x) if isinstance(x, list) else x for x in e["e"]]
        el = gd.RobustPath((e["p"][0] * g, e["p"][1] * g), _unwrap([w * g for w in e["w"]], n),
                           [x * g for x in e["o"]] if (n > 1 or e["o"] != [0]) else 0,
                           ends=ends if n > 1 else ends[0], tolerance=0.4 * g, gdsii_path=k == "robustg",
                           width_transform=e["wt"], layer=_unwrap(e["l"], n), datatype=_unwrap(e["d"], n))
        for st in e["s"]:
            step(el, st, g, hooks, True)
    elif k == "label":
        el = gd.Label(e["t"], (e["at"][0] * g, e["at"][1] * g), e["an"], e["r"], e["m"], e["x"], e["l"], e["d"])
    elif k == "sref":
        el = gd.CellReference(cells.get(e["ref"], e["ref"]), (e["at"][0] * g, e["at"][1] * g), e["r"], e["m"], e["x"])
    elif k == "aref":
        el = gd.CellArray(cells.get(e["ref"], e["ref"]), e["cr"][0], e["cr"][1], (e["sp"][0] * g, e["sp"][1] * g),
                          (e["at"][0] * g, e["at"][1] * g), e["r"], e["m"], e["x"])
    else:
        raise AssertionError(k)
    for a, v in e.get("props", {}).items():
        el.properties[int(a)] = v
    return el


def build(gd, spec, hooks=None, elements=None):
    """Returns (library, {name: cell}); adds cells in spec order."""
    hooks = hooks or Hooks()
    g = grid(spec)
    lib = gd.GdsLibrary(spec["name"], unit=spec["unit"], precision=spec["precision"])
    cells = {}
    for c in spec["cells"]:
        cell = gd.Cell(c["name"])
        for e in c["els"]:
            el = make(gd, e, g, cells, hooks)
            if elements is not None:
                elements.append((c["name"], e, el))
            cell.add(el)
        cells[c["name"]] = cell
        lib.add(cell, include_dependencies=False)
    return lib, cells


# -- model -------------------------------------------------------------------
FINE = 64


def rnd(v):
    """Rounds to the nearest integer."""
    return math.floor(v + 0.5)


class MBytes(object):
    def __init__(self):
        self.b = bytearray()

    def write(self, x):
        self.b.extend(x)


def fine_export(el, g):
    """The element exported on a grid FINE times finer, decoded: an
    over-sampled picture of curved geometry (see model_elements)."""
    from . import refgds
    out = MBytes()
    el.to_gds(out, FINE / g)
    data = bytes(out.b)
    it = refgds.records(data, False)
    els = []
    for r in it:
        els.append(refgds.element(r, it))
    return els


def offset_polyline(pts, off):
    """Independent parallel polyline with mitred joins (constant offset to the
    left of the direction of travel)."""
    if off == 0:
        return pts
    segs_ = []
    for (x0, y0), (x1, y1) in zip(pts[:-1], pts[1:]):
        d = math.hypot(x1 - x0, y1 - y0)
        nx, ny = -(y1 - y0) / d, (x1 - x0) / d
        segs_.append(((x0 + nx * off, y0 + ny * off), (x1 + nx * off, y1 + ny * off)))
    out = [segs_[0][0]]
    for (a, b), (c, d) in zip(segs_[:-1], segs_[1:]):
        v0 = (b[0] - a[0], b[1] - a[1])
        v1 = (d[0] - c[0], d[1] - c[1])
        den = v0[0] * v1[1] - v0[1] * v1[0]
        if den ** 2 < 1e-12 * (v0[0] ** 2 + v0[1] ** 2) * (v1[0] ** 2 + v1[1] ** 2):
            out.append((0.5 * (b[0] + c[0]), 0.5 * (b[1] + c[1])))
        else:
            t = ((c[0] - a[0]) * v1[1] - (c[1] - a[1]) * v1[0]) / den
            out.append((a[0] + t * v0[0], a[1] + t * v0[1]))
    out.append(segs_[-1][1])
    return out


def dedupe(pts):
    out = []
    for p in pts:
        if not out or tuple(p) != tuple(out[-1]):
            out.append(p)
    return out


def endspec(x):
    return {"flush": 0, "round": 1, "extended": 2}[x] if isinstance(x, str) else tuple(x)


def pr(e):
    return tuple(sorted((int(a), v) for a, v in e.get("props", {}).items()))


def model_elements(gd, e, g):
    """Expected GDSII elements of a spec element, coordinates as floats in
    database units."""
    k = e["k"]
    P = pr(e)
    if k == "poly":
        return [("B", e["l"], e["d"], [tuple(p) for p in expand_pts(e["p"])], P)]
    if k == "pset":
        return [("B", e["l"], e["d"], [tuple(p) for p in expand_pts(q)], P) for q in e["ps"]]
    if k == "rect":
        a, b = e["a"], e["b"]
        return [("B", e["l"], e["d"], [(a[0], a[1]), (a[0], b[1]), (b[0], b[1]), (b[0], a[1])], P)]
    if k == "label":
        return [("T", e["l"], e["d"], ANCHORS[e["an"]], bool(e["x"]), e["m"], e["r"], tuple(e["at"]), e["t"], P)]
    if k == "sref":
        return [("S", e["ref"], bool(e["x"]), e["m"], e["r"], tuple(e["at"]), P)]
    if k == "aref":
        x0, y0 = e["at"]
        ux, uy = e["cr"][0] * e["sp"][0], 0.0
        vx, vy = 0.0, e["cr"][1] * e["sp"][1]
        if e["x"]:
            vy = -vy
        t = math.radians(e["r"] or 0)
        c, s = math.cos(t), math.sin(t)
        return [("A", e["ref"], bool(e["x"]), e["m"], e["r"], e["cr"][0], e["cr"][1],
                 [(x0, y0), (x0 + ux * c - uy * s, y0 + ux * s + uy * c), (x0 + vx * c - vy * s, y0 + vx * s + vy * c)], P)]
    if k == "flexg" and e["c"] == "natural":
        fresh = make(gd, e, g, {}, Hooks())
        pts = dedupe([(float(x) / g, float(y) / g) for x, y in fresh.points])
        if len(e.get("s", ())) == 0:
            pts = dedupe([tuple(p) for p in expand_path(e["p"])])
        if not any("offset" in st[-1] for st in e.get("s", ())):
            out = []
            for i in range(e["n"]):
                out.append(("P", e["l"][i], e["d"][i], (1 if e["wt"] else -1) * e["w"][i], endspec(e["e"][i]),
                            offset_polyline(pts, e["o"][i]), P))
            return out
    if k == "robustg" and all(st[0] == "segment" and not st[-1] for st in e["s"]) and e["o"] == [0]:
        x, y = e["p"]
        pts = [(x, y)]
        for st in e["s"]:
            x, y = x + st[1][0], y + st[1][1]
            pts.append((x, y))
        return [("P", e["l"][0], e["d"][0], (1 if e["wt"] else -1) * e["w"][0], endspec(e["e"][0]), pts, P)]
    fresh = make(gd, e, g, {}, Hooks())
    out = []
    if k in ("round", "text"):
        for p in fresh.polygons:
            out.append(("B", e["l"], e["d"], [(float(x) / g, float(y) / g) for x, y in p], P))
        return out
    if k in ("flex", "robust"):
        for (l, d), polys in fresh.get_polygons(True).items():
            for p in polys:
                out.append(("B", l, d, [(float(x) / g, float(y) / g) for x, y in p], P))
        return out
    for i, f in enumerate(fine_export(fresh, g)):
        out.append(("P", e["l"][i], e["d"][i], (1 if e["wt"] else -1) * e["w"][i], endspec(e["e"][i]),
                    [(x / FINE, y / FINE) for x, y in f[5]], P))
    return out


def near(m, d, tol=0.51):
    """model coordinate (float dbu) against a decoded integer."""
    return abs(m - d) <= tol + 1e-6 * max(1.0, 1e-9 * abs(m))


def fclose(a, b, rel=1e-14):
    if a is None or b is None:
        return a is None and b is None
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-300


def same_pts(m, d, tol):
    return len(m) == len(d) and all(near(a[0], b[0], tol) and near(a[1], b[1], tol) for a, b in zip(m, d))


def match(m, d, tol=0.51, atol=None):
    """Does decoded element d represent model element m?  Returns None or the
    name of the first difference."""
    if m[0] != d[0]:
        return "kind"
    k = m[0]
    if k == "B":
        if m[1:3] != d[1:3]:
            return "layer/datatype"
        if m[4] != d[4]:
            return "properties"
        return None if same_pts(m[3], d[3], tol) else "points"
    if k == "P":
        if m[1:3] != d[1:3]:
            return "layer/datatype"
        if m[6] != d[6]:
            return "properties"
        if not near(m[3], d[3], tol):
            return "width"
        if isinstance(m[4], tuple) != isinstance(d[4], tuple):
            return "ends"
        if isinstance(m[4], tuple):
            if not (near(m[4][0], d[4][0], tol) and near(m[4][1], d[4][1], tol)):
                return "ends"
        elif m[4] != d[4]:
            return "ends"
        return None if same_pts(m[5], d[5], tol) else "points"
    if k == "T":
        if m[1:3] != d[1:3]:
            return "layer/texttype"
        if m[3] != d[3]:
            return "anchor"
        if m[4] != d[4]:
            return "reflection"
        if not fclose(m[5], d[5]):
            return "magnification"
        if not fclose(m[6], d[6]):
            return "rotation"
        if not same_pts([m[7]], [d[7]], tol):
            return "position"
        if m[8] != d[8]:
            return "text"
        return None if m[9] == d[9] else "properties"
    if m[1] != d[1]:
        return "referenced cell"
    if m[2] != d[2]:
        return "reflection"
    if not fclose(m[3], d[3]):
        return "magnification"
    if not fclose(m[4], d[4]):
        return "rotation"
    if k == "S":
        if not same_pts([m[5]], [d[5]], tol):
            return "origin"
        return None if m[6] == d[6] else "properties"
    if m[5:7] != d[5:7]:
        return "columns/rows"
    if not same_pts(m[7], d[7], atol or tol):
        return "grid"
    return None if m[8] == d[8] else "properties"


def compare(model, decoded, tol=0.51, atol=None):
    """Multiset comparison of element lists; None or a description."""
    if len(model) != len(decoded):
        return "%d elements instead of %d" % (len(decoded), len(model))
    left = list(decoded)
    for i, m in enumerate(model):
        best = None
        for j, d in enumerate(left):
            r = match(m, d, tol, atol)
            if r is None:
                del left[j]
                break
            if best is None and m[0] == d[0]:
                best = (r, d)
        else:
            return "element %d (%s) not found; closest differs in %s: expected %s got %s" % (
                i, m[0], best and best[0], short(m), short(best and best[1]))
    return None


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."
