"""Random construction histories of paths and curves, and evaluations.

A step is plain data; `apply` carries it out on a path built by `create`.
User-supplied functions report to `hooks` before they run.
"""
import datetime
import math

import numpy

from . import observe, queries as Q

TS = datetime.datetime(2020, 1, 2, 3, 4, 5)
KINDS = ("flex", "flex", "robust", "robust", "path", "curve")
DIRS = ("+x", "-x", "+y", "-y")
FUNCS = ("line", "sine", "para", "spiral")


# -- plans -------------------------------------------------------------------
def gen_base(rng, kind):
    n = rng.choice([1, 1, 2, 3])
    b = {"k": kind, "n": n, "tol": rng.choice([0.5, 2, 10]), "at": [rng.randint(-900, 900), rng.randint(-900, 900)]}
    if kind == "curve":
        b["cx"] = rng.random() < 0.3
        return b
    if kind == "path":
        b.update(w=rng.choice([4, 10, 30]), dist=rng.choice([0, 20, 50]))
        return b
    b["l"] = [rng.choice([0, 1, 5]) for _ in range(n)]
    b["d"] = [rng.choice([0, 2]) for _ in range(n)]
    b["w"] = [rng.choice([2, 8, 20, 40]) for _ in range(n)]
    b["o"] = [float(rng.randint(-60, 60)) for _ in range(n)] if rng.random() < 0.7 else rng.choice([0, 25])
    if not isinstance(b["o"], list) and rng.random() < 0.3 and n == 1:
        b["w"] = b["w"][:1]
    b["mp"] = rng.choice([0, 7, 20, 199, 199])
    b["gds"] = rng.random() < 0.3
    b["wt"] = rng.random() < 0.7
    ends = ["flush", "extended", "round", "smooth", [12, 5]]
    if kind == "flex":
        b["e"] = [rng.choice(ends + ["cb:cap"] * 3) for _ in range(n)]
        b["c"] = [rng.choice(["natural", "miter", "bevel", "round", "smooth", "circular bend", "cb:join", "cb:join"]) for _ in range(n)]
        b["br"] = [rng.choice([50, 80, None if c != "circular bend" else 60]) for c in b["c"]]
        b["bf"] = rng.random() < 0.3
        b["p"] = [b["at"]] + [[rng.randint(-900, 900), rng.randint(-900, 900)] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if rng.random() < 0.1:
            b["p"].append(b["p"][-1])
    else:
        b["e"] = [rng.choice(ends) for _ in range(n)]
        b["me"] = rng.choice([20, 200, 1000])
    return b


def _width(rng, kind, n):
    x = rng.random()
    if x < 0.45:
        return None
    w = rng.choice([2, 6, 15, 30])
    if kind == "path":
        return w if x < 0.7 else "f%d" % w
    if x < 0.65:
        return w
    if kind == "robust":
        if x < 0.8:
            return "f%d" % w
        return [rng.choice([w + i, "f%d" % (w + i)]) for i in range(n)]
    return [w + i for i in range(n)]


def _pts(rng, n):
    return [[rng.randint(-400, 400), rng.randint(-400, 400)] for _ in range(n)]


def gen_step(rng, kind, n):
    """One construction step."""
    if kind == "curve":
        return gen_curve(rng)
    k = rng.choice(["segment", "segment", "arc", "turn", "parametric", "parametric", "bezier", "smooth"])
    s = {"s": k}
    w, o = _width(rng, kind, n), _width(rng, kind, n)
    if w is not None:
        s["w"] = w
    if o is not None:
        s["o"] = o
    if k == "segment":
        if kind == "path":
            s.update(len=rng.randint(10, 500), dir=rng.choice([None, None, rng.choice(DIRS), round(rng.uniform(-3, 3), 2)]), ax=rng.choice([0, 0, 15]))
        else:
            s.update(p=_pts(rng, 1)[0], rel=rng.random() < 0.6)
    elif k == "arc":
        s.update(r=rng.randint(100, 400), a=[rng.choice([0, 30, 90]), rng.choice([-90, 60, 150, 210])])
    elif k == "turn":
        s.update(r=rng.randint(100, 400), a=rng.choice(["l", "r", "ll", "rr", 0.7, -1.1]))
    elif k == "parametric":
        s.update(f=rng.choice(FUNCS), z=rng.randint(100, 500), rel=rng.random() < 0.8, df=kind != "flex" and rng.random() < 0.3)
    elif k == "bezier":
        s.update(ps=_pts(rng, rng.randint(1, 4)), rel=rng.random() < 0.7)
    elif k == "smooth":
        s.update(ps=_pts(rng, rng.choice([1, 2, 2, 3, 4])), rel=rng.random() < 0.7, cyc=rng.random() < 0.15)
    if kind == "path":
        s["l"], s["d"] = rng.choice([(0, 0), (3, 1), ([1, 2], [0, 4])])
        if k != "segment":
            s["mp"] = rng.choice([0, 12, 199])
    x = rng.random()
    if x < 0.12:
        s["bad"] = rng.choice(BAD[kind])
    return s


BAD = {"flex": ("wlen", "olen", "point", "angle"), "robust": ("wlen", "olen", "point", "angle"), "path": ("point", "angle", "w", "o"), "curve": ()}


def gen_curve(rng):
    k = rng.choice("LlHhVvCcSsQqTtBbIi") if rng.random() < 0.9 else "arc"
    s = {"s": k}
    per = {"L": 1, "l": 1, "C": 3, "c": 3, "S": 2, "s": 2, "Q": 2, "q": 2, "T": 1, "t": 1}
    if k in "HhVv":
        a = [rng.randint(-500, 500) for _ in range(rng.randint(1, 3))]
    elif k == "arc":
        s.update(r=rng.choice([rng.randint(50, 300), [rng.randint(50, 300), rng.randint(50, 300)]]), a=[0, rng.choice([90, -200, 300])], rot=rng.choice([0, 0.5]))
        a = []
    elif k in "Ii":
        s["cyc"] = rng.random() < 0.2
        a = _pts(rng, rng.randint(1, 4))
    else:
        a = []
        for _ in range(rng.randint(1, 3) * per.get(k, 2)):
            p = _pts(rng, 1)[0]
            a += ["c"] + p if rng.random() < 0.2 else p
    s["a"] = a
    if rng.random() < 0.15:
        s["bad"] = rng.choice(["short", "none", "text", "cb"])
        s["bat"] = rng.random()
    return s


def gen_transform(rng, kind):
    k = rng.choice(["translate", "rotate", "scale", "transform"] if kind in ("flex", "robust") else ["translate", "rotate", "scale", "mirror"])
    s = {"t": k}
    if k == "translate":
        s["v"] = [rng.randint(-500, 500), rng.randint(-500, 500)]
    elif k == "rotate":
        s.update(v=round(rng.uniform(-3, 3), 2), c=rng.choice([[0, 0], [100, -70]]))
    elif k == "scale":
        s.update(v=rng.choice([0.5, 2, 3, 1.5]), c=rng.choice([[0, 0], [100, -70]]))
    elif k == "mirror":
        s["v"] = [rng.randint(1, 500), rng.randint(-500, 500)]
    else:
        s["v"] = [rng.choice([None, [10, -200]]), rng.choice([None, 1.1, -0.4]), rng.choice([None, 2, 0.5]), rng.random() < 0.5, rng.choice([None, [30, 40]])]
    return s


EVALS = {"flex": ["polys", "spec", "set", "area", "areas", "gds", "svg", "str", "cell", "cellbb"],
         "robust": ["polys", "spec", "set", "area", "areas", "gds", "svg", "str", "cell", "cellbb", "call", "grad", "width"],
         "path": ["area", "areas", "gds", "svg", "str", "bb", "cell"],
         "curve": ["points", "poly"]}
FULL = {"flex": ["spec", "polys", "areas", "gds", "svg"], "robust": ["gds", "spec", "call", "width", "areas", "svg"],
        "path": ["state", "areas", "gds"], "curve": ["points", "next"]}


# -- execution ---------------------------------------------------------------
class Funcs(object):
    """User functions; `before(name)` may raise."""

    def __init__(self, before=None):
        self.before = before or (lambda name: None)
        self.calls = 0

    def hit(self, name):
        self.calls += 1
        self.before(name)

    def scalar(self, text, name):
        w = int(text[1:])

        def f(u):
            self.hit(name)
            return w * (1 + 0.5 * u)
        return f

    def curve(self, kind, z):
        fs = {"line": lambda u: (z * u, 0.3 * z * u), "sine": lambda u: (z * u, 0.1 * z * math.sin(2 * math.pi * u)),
              "para": lambda u: (z * u, 0.4 * z * u * u), "spiral": lambda u: (z * u * math.cos(3 * u), z * u * math.sin(3 * u) + 0.1 * z * u)}

        def f(u):
            self.hit("curve")
            return numpy.array(fs[kind](u))
        return f

    def derivative(self, kind, z):
        fs = {"line": lambda u: (z, 0.3 * z), "sine": lambda u: (z, 0.2 * math.pi * z * math.cos(2 * math.pi * u)),
              "para": lambda u: (z, 0.8 * z * u),
              "spiral": lambda u: (z * math.cos(3 * u) - 3 * z * u * math.sin(3 * u), z * math.sin(3 * u) + 3 * z * u * math.cos(3 * u) + 0.1 * z)}

        def f(u):
            self.hit("derivative")
            return numpy.array(fs[kind](u))
        return f

    def cap(self):
        def cap(p0, v0, p1, v1):
            self.hit("cap")
            p0, p1 = numpy.array(p0), numpy.array(p1)
            v = numpy.array(v0) / max(1e-9, math.hypot(*v0))
            return [p0, 0.5 * (p0 + p1) + v * 0.25 * math.hypot(*(p1 - p0)), p1]
        return cap

    def join(self):
        def join(p0, v0, p1, v1, p2, w):
            self.hit("join")
            return [numpy.array(p0), 0.5 * (numpy.array(p0) + numpy.array(p1)), numpy.array(p1)]
        return join

    def bend(self, r):
        return r

    def number(self, v):
        return Number(v, self)


class Number(object):
    """A number that may fail to convert."""

    def __init__(self, v, funcs):
        self.v, self.f = v, funcs

    def __float__(self):
        self.f.hit("number")
        return float(self.v)


def create(gd, b, f):
    k, n = b["k"], b["n"]
    if k == "curve":
        return gd.Curve(complex(*b["at"]), tolerance=b["tol"]) if b["cx"] else gd.Curve(b["at"][0], b["at"][1], tolerance=b["tol"])
    if k == "path":
        return gd.Path(b["w"], tuple(b["at"]), n, b["dist"])
    one = lambda v: v[0] if n == 1 and len(v) == 1 else list(v)
    width = one(b["w"])
    offset = list(b["o"]) if isinstance(b["o"], list) else b["o"]
    ends = [f.cap() if e == "cb:cap" else tuple(e) if isinstance(e, list) else e for e in b["e"]]
    com = dict(ends=ends, tolerance=b["tol"], max_points=b["mp"], gdsii_path=b["gds"], width_transform=b["wt"], layer=list(b["l"]), datatype=list(b["d"]))
    if k == "flex":
        corners = [f.join() if c == "cb:join" else c for c in b["c"]]
        return gd.FlexPath([tuple(p) for p in b["p"]], width, offset, corners=corners, bend_radius=list(b["br"]), **com)
    return gd.RobustPath(tuple(b["at"]), width, offset, max_evals=b["me"], **com)


def _arg(v, f, name, by=1):
    if isinstance(v, str):
        g = f.scalar(v, name)
        return g if by == 1 else lambda u: by * g(u)
    if isinstance(v, list):
        return [_arg(x, f, name, by) for x in v]
    return v if by == 1 else v * by


def apply(path, b, s, f):
    """Carries out a construction step or transformation."""
    if "t" in s:
        k, v = s["t"], s["v"]
        if k == "translate":
            path.translate(v[0], v[1])
        elif k == "rotate":
            path.rotate(v, center=tuple(s["c"]))
        elif k == "scale":
            path.scale(v, center=tuple(s["c"]))
        elif k == "mirror":
            path.mirror(tuple(v))
        else:
            path.transform(None if v[0] is None else numpy.array(v[0], float), v[1], v[2], v[3], None if v[4] is None else numpy.array(v[4], float))
        return
    if b["k"] == "curve":
        return curve_step(path, s, f)
    kw = {}
    own = b["k"] == "path"
    plural = own and s["s"] == "smooth"
    many = (len(s["ps"]) + 1 if s.get("rel") is not None else 0) if plural else 0
    for a, long in (("w", "width"), ("o", "offset")):
        if a in s:
            by = s["frame"].by(a, b) if "frame" in s else 1
            v = _arg(s[a], f, long, by)
            if own:
                long = {"width": "final_width", "offset": "final_distance"}[long]
                if plural:
                    v, long = [v] * many, long + "s"
                elif callable(v) and s["s"] not in ("parametric", "bezier"):
                    v = int(s[a][1:]) * by
            elif callable(v) and b["k"] == "flex":
                v = int(s[a][1:]) * by
            kw[long] = v
    bad = s.get("bad")
    if bad == "wlen":
        kw["width"] = [3] * (b["n"] + 1) if b["k"] == "flex" else []
    elif bad == "olen":
        kw["offset"] = [3] * (b["n"] + 1) if b["k"] == "flex" else []
    elif bad in ("w", "o"):
        base = {"w": "final_width", "o": "final_distance"}[bad]
        kw[base + "s" if plural else base] = ["x"] * many if plural else "x"
    if own:
        kw.update(layer=s["l"] if not isinstance(s["l"], list) else list(s["l"]), datatype=s["d"] if not isinstance(s["d"], list) else list(s["d"]))
        if s["s"] != "segment":
            kw.update(tolerance=s.get("tol", b["tol"]), max_points=s["mp"])
    k = s["s"]
    wrong = bad == "point"
    if k == "segment":
        if own:
            path.segment("1" if wrong else s["len"], "up" if bad == "angle" else s["dir"], axis_offset=s["ax"], **kw)
        else:
            path.segment((1, 2, 3) if wrong else tuple(s["p"]), relative=s["rel"], **kw)
    elif k == "arc":
        path.arc("x" if wrong else s["r"], math.radians(s["a"][0]), None if bad == "angle" else math.radians(s["a"][1]), **kw)
    elif k == "turn":
        path.turn("x" if wrong else s["r"], "up" if bad == "angle" else s["a"], **kw)
    elif k == "parametric":
        curve, derivative = f.curve(s["f"], s["z"]), f.derivative(s["f"], s["z"])
        if "frame" in s:
            curve, derivative = s["frame"].carry(curve, not s["rel"]), s["frame"].carry(derivative, False)
        if s["df"]:
            kw["curve_derivative"] = derivative
        path.parametric(None if wrong else curve, relative=s["rel"], **kw)
    elif k == "bezier":
        path.bezier([(1, 2, 3)] if wrong else [tuple(p) for p in s["ps"]], relative=s["rel"], **kw)
    elif k == "smooth":
        path.smooth([(1, 2, 3)] if wrong else [tuple(p) for p in s["ps"]], cycle=s["cyc"], relative=s["rel"], **kw)
    else:
        raise AssertionError(k)


class Frame(object):
    """The transformations a path went through: scale k, rotation a after an
    optional reflection, and translation."""

    def __init__(self, m=None, k=1.0, a=0.0, refl=False):
        self.m = numpy.eye(3) if m is None else m
        self.k, self.a, self.refl = k, a, refl

    def then(self, s):
        """The frame after one more transformation."""
        t, v = s["t"], s["v"]
        k, a, refl, before, after, c = 1.0, 0.0, False, (0, 0), (0, 0), (0, 0)
        if t == "translate":
            after = v
        elif t == "rotate":
            a, c = v, s["c"]
        elif t == "scale":
            k, c = v, s["c"]
        elif t == "mirror":
            refl, a = True, 2 * math.atan2(v[1], v[0])
        else:
            after, a, k, refl = v[0] or (0, 0), v[1] or 0.0, v[2] or 1.0, v[3]
            before = [x / k for x in v[4]] if v[4] else (0, 0)
        shift = lambda p, z=1: numpy.array([[1, 0, z * p[0]], [0, 1, z * p[1]], [0, 0, 1.0]])
        ca, sa = k * math.cos(a), k * math.sin(a)
        f = -1 if refl else 1
        lin = numpy.array([[ca, -sa * f, 0], [sa, ca * f, 0], [0, 0, 1.0]])
        m = shift(after).dot(shift(c)).dot(lin).dot(shift(c, -1)).dot(shift(before))
        return Frame(m.dot(self.m), k * self.k, a + f * self.a, refl != self.refl)

    def back(self, p, absolute):
        """A point or vector as it was before the transformations."""
        inv = numpy.linalg.inv(self.m)
        q = inv[:2, :2].dot(numpy.array(p, dtype=float))
        return q + inv[:2, 2] if absolute else q

    def angle(self, a):
        return self.a - a if self.refl else a - self.a

    def carry(self, fn, absolute):
        return lambda *u: self.back(fn(*u), absolute)

    def by(self, a, b):
        if a == "w":
            return 1.0 / self.k if b.get("wt", True) or not b.get("gds") else 1.0
        return (-1.0 if self.refl and b["k"] != "path" else 1.0) / self.k

    def step(self, s, b):
        """The construction step as it would have been before them."""
        k = s["s"]
        q = dict(s, frame=self, tol=b["tol"] / self.k)
        if k == "segment" and b["k"] == "path":
            q["len"] = s["len"] / self.k
            q["ax"] = s["ax"] / self.k * (-1 if self.refl else 1)
            d = s["dir"]
            if isinstance(d, str):
                d = {"+x": 0.0, "-x": math.pi, "+y": math.pi / 2, "-y": -math.pi / 2}[d]
            q["dir"] = None if d is None else self.angle(d)
        elif k == "segment":
            q["p"] = list(self.back(s["p"], not s["rel"]))
        elif k == "arc":
            q["r"] = s["r"] / self.k
            q["a"] = [math.degrees(self.angle(math.radians(x))) for x in s["a"]]
        elif k == "turn":
            q["r"] = s["r"] / self.k
            if self.refl:
                q["a"] = {"l": "r", "r": "l", "ll": "rr", "rr": "ll"}[s["a"]] if isinstance(s["a"], str) else -s["a"]
        elif k in ("bezier", "smooth"):
            q["ps"] = [list(self.back(p, not s["rel"])) for p in s["ps"]]
        return q


def frames(b, done):
    """The same path with all its transformations after its construction:
    (steps, transformations, final frame); None if that is not promised."""
    built, moves, fr = [], [], Frame()
    for s in done:
        # there are two loops through two points
        if "bad" in s or s.get("cyc") and len(s["ps"]) < 3:
            return None
        if "t" in s:
            fr = fr.then(s)
            moves.append(s)
            # a reflection leaves the offsets of FlexPath on their side; the
            # distance between the parts of Path is not scaled, nor what is
            # built of a RobustPath whose width does not follow
            if b["k"] == "robust" and b["gds"] and not b["wt"] and fr.k != 1:
                return None
            if b["k"] == "flex" and fr.refl or b["k"] == "path" and b["n"] > 1 and fr.k != 1:
                return None
        else:
            built.append(fr.step(s, b))
    return built, moves, fr


def curve_step(c, s, f):
    k = s["s"]
    a = list(s["a"])
    if k == "arc":
        r = tuple(s["r"]) if isinstance(s["r"], list) else s["r"]
        if "bad" in s:
            r = "x"
        c.arc(r, math.radians(s["a"][0]) if s["a"] else 0.0, math.radians(200), s["rot"])
        return
    if k in "Ii":
        if "bad" in s:
            a[int(s["bat"] * len(a))] = (1, 2, 3)
        getattr(c, k)([tuple(p) for p in a], cycle=s["cyc"])
        return
    args = []
    i = 0
    while i < len(a):
        if a[i] == "c":
            args.append(complex(a[i + 1], a[i + 2]))
            i += 3
        else:
            args.append(a[i])
            i += 1
    bad = s.get("bad")
    if bad:
        i = int(s["bat"] * len(args))
        if bad == "short":
            del args[i]
        elif bad == "none":
            args[i] = None
        elif bad == "text":
            args[i] = "x"
        else:
            args[i] = f.number(3)
    getattr(c, k)(*args)


def evaluate(gd, path, b, op, f=None, fail=None):
    """One evaluation, as plain data.  fail: which write fails."""
    k = b["k"]
    if op in ("polys", "spec"):
        v = path.get_polygons(op == "spec")
        return polys(v) if op == "polys" else tuple((ky, polys(x)) for ky, x in v.items())
    if op == "set":
        v = path.to_polygonset()
        return None if v is None else pset(v)
    if op in ("area", "areas"):
        v = path.area(op == "areas")
        return tuple((ky, float(x)) for ky, x in v.items()) if op == "areas" else float(v)
    if op == "gds":
        out = Q.GStream(fail)
        path.to_gds(out, 1000)
        return out.value()
    if op == "svg":
        out = Q.GStream(fail, text=True)
        path.to_svg(out, 2.5, 6)
        return out.value()
    if op == "str":
        return str(path)
    if op == "bb":
        return observe.arr(path.get_bounding_box())
    if op in ("cell", "cellbb"):
        c = gd.Cell("C", exclude_from_current=True)
        c.add(path)
        if op == "cellbb":
            return observe.arr(c.get_bounding_box())
        out = Q.GStream(fail)
        c.to_gds(out, 1000, TS)
        return out.value()
    if op in ("call", "grad", "width"):
        out = []
        n = len(path)
        for i in range(2 * n + 1):
            u = 0.5 * i
            if op == "width":
                out.append(observe.arr(path.width(u)))
            elif op == "grad":
                out.append(observe.arr(path.grad(u)))
            else:
                out += [observe.arr(path(u, a)) for a in (-1, 0, 1)]
        return tuple(out)
    if op == "state":
        return (pset(path), float(path.x), float(path.y), float(path.w), path.n, path.direction if isinstance(path.direction, str) else float(path.direction),
                float(path.distance), float(path.length))
    if op == "points":
        return observe.arr(path.get_points())
    if op == "poly":
        return pset(gd.Polygon(path.get_points()))
    if op == "next":
        # smooth continuations depend on the previous section
        path.t(10, 20)
        path.s(5, 5, 30, -10)
        return observe.arr(path.get_points())
    raise AssertionError(op)


def landmarks(path, b):
    """Numbers that show where a path is; None if they cannot be told."""
    if b["k"] == "path":
        d = path.direction
        d = {"+x": 0.0, "-x": math.pi, "+y": math.pi / 2, "-y": -math.pi / 2}[d] if isinstance(d, str) else float(d)
        bb = path.get_bounding_box()
        return {"end": numpy.array([path.x, path.y]), "half width": numpy.array([path.w]), "direction": 1000 * numpy.array([math.cos(d), math.sin(d)]),
                "box": numpy.zeros(0) if bb is None else bb}
    if b["k"] == "robust":
        us = [0.25 * i for i in range(4 * len(path) + 1)]
        left, right = (numpy.array([path(u, arm) for u in us]) for arm in (1, -1))
        # reflections exchange the arms
        across = lambda u: numpy.array(path(u, 1)) - numpy.array(path(u, -1))
        turns = []
        for i in range(1, len(path)):
            u, v = across(i - 1e-7), across(i + 1e-7)
            z = numpy.hypot(*u.T) * numpy.hypot(*v.T)
            turns.append(numpy.where(z > 1e-3, (u * v).sum(axis=1) / numpy.maximum(z, 1e-3), 0.0))
        return {"sides": numpy.array(turns), "path": 0.5 * (left + right), "edges": numpy.abs(left - right), "width": numpy.abs([path.width(u) for u in us])}
    if (numpy.abs(numpy.diff(path.points, axis=0)).max(axis=1, initial=0) < 1e-6).any():
        return None     # no direction to go on from
    return {"points": numpy.array(path.points), "widths": numpy.array(path.widths), "offsets": numpy.array(path.offsets)}


def polys(v):
    return tuple(observe.arr(p) for p in v)


def pset(v):
    return (polys(v.polygons), tuple(v.layers), tuple(v.datatypes), tuple(sorted(v.properties.items())))
