"""C09: independent sessions do not interfere."""
import datetime
import importlib
import math
import random
import sys
import warnings

import numpy

from .. import boot, observe, program as P, queries as Q, sched, simfs, steps, tkstub
from ..runner import Check, alone, clone, generic_shrinks

TS = datetime.datetime(2003, 4, 5, 6, 7, 8)
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


class Injected(Exception):
    pass


# -- argument objects given by the caller, possibly to several sessions --------
def gen_pool(rng):
    def num(a=30):
        return rng.choice([rng.randint(-a, a), round(rng.uniform(-a, a), 2)])

    def pts(n):
        out = [[num(), num()]]
        while len(out) < n:
            p = [num(), num()]
            if abs(p[0] - out[-1][0]) + abs(p[1] - out[-1][1]) > 6:
                out.append(p)
        return out
    seq = ["list", "list", "tuple", "array", "array", "array", "rows"]
    p = {}
    p["points"] = [{"as": rng.choice(seq), "v": pts(rng.choice([3, 4, 4, 5]))} for _ in range(2)]
    p["point"] = [{"as": rng.choice(["list", "tuple", "array", "array", "list"]), "v": [num(), num()]} for _ in range(2)]
    p["polys"] = [{"as": rng.choice(["lists", "lists", "arrays", "tuple"]), "v": [pts(rng.choice([3, 4, 5])) for _ in range(rng.choice([1, 2, 3]))]}]
    p["two"] = [{"as": "list", "v": [rng.choice([0.5, 1, 1.5, 2]), rng.choice([0.5, 1, 2.5])]} for _ in range(2)]
    p["offs"] = [{"as": "list", "v": [-3.0, 3.5]}, {"as": rng.choice(["list", "tuple", "array"]), "v": [-4, 2]}]
    p["ints"] = [{"as": "list", "v": [rng.randint(0, 5) for _ in range(rng.choice([1, 2, 2, 3]))]} for _ in range(2)]
    p["ends"] = [{"as": "list", "v": rng.choice([["flush", "round"], ["extended"], ["round", "flush", "extended"]])}]
    p["corners"] = [{"as": "list", "v": rng.choice([["natural", "miter"], ["bevel"], ["round", "smooth"]])}]
    p["bends"] = [{"as": "list", "v": [6.0, None]}]
    # one for each number of points a curve can go through
    p["angles"] = [{"as": rng.choice(["list", "list", "tuple"]), "v": [rng.choice([None, 0.3, -1.0]) for _ in range(m)]} for m in (4, 5, 6)]
    p["tension"] = [{"as": rng.choice(["list", "array", "tuple"]), "v": [rng.choice([1, 1.2, 0.8]) for _ in range(m)]} for m in (4, 5, 6)]
    p["map"] = [{"as": "dict", "v": [[rng.randint(0, 5), rng.randint(6, 9)] for _ in range(2)]} for _ in range(2)]
    p["rename"] = [{"as": "dict", "v": [["A", "RA"], ["B", "RB"]][:rng.choice([1, 2])]}]
    p["style"] = [{"as": "dict", "v": [[[0, 0], {"fill": "red"}], [[1, 2], {"stroke": "blue", "fill": "none"}]]}]
    p["hidden"] = [{"as": rng.choice(["list", "list", "tuple"]), "v": [[0, 0], [rng.randint(0, 5), rng.randint(0, 5)]]}]
    p["colour"] = [{"as": "dict", "v": [[[0, 0], "#112233"], [[1, 1], "#445566"]]}]
    p["pattern"] = [{"as": "dict", "v": [[[0, 0], 3], [[1, 1], 5]]}]
    p["names"] = [{"as": rng.choice(["list", "set", "tuple"]), "v": ["A", "B"][:rng.choice([1, 2])]}]
    p["pos"] = [{"as": rng.choice(["list", "list", "tuple", "array"]), "v": sorted(num(20) for _ in range(rng.choice([1, 2, 3])))[::rng.choice([1, -1])]}]
    p["radii"] = [{"as": rng.choice(["list", "array"]), "v": [1.0, 0.5]}]
    p["lens"] = [{"as": rng.choice(["list", "array"]), "v": [9.0, 8.0, 12.0, 7.0]}]
    p["turns"] = [{"as": rng.choice(["list", "array"]), "v": [1, -1, 1]}]
    p["xy"] = [{"as": rng.choice(["list", "array", "tuple"]), "v": [3.0, 9.0, 12.0, 4.0, 20.0, 1.0]}]
    return p


def make_pool(plan):
    def one(e):
        v, k = e["v"], e["as"]
        if k == "list":
            return [list(x) if isinstance(x, list) else x for x in v]
        if k == "tuple":
            return tuple(tuple(x) if isinstance(x, list) else x for x in v) if not (v and isinstance(v[0], list) and v[0] and isinstance(v[0][0], list)) \
                else tuple(numpy.array(x) for x in v)
        if k == "array":
            return numpy.array(v)
        if k == "rows":
            return [numpy.array(x) for x in v]
        if k == "lists":
            return [[list(q) for q in x] for x in v]
        if k == "arrays":
            return [numpy.array(x) for x in v]
        if k == "set":
            return set(v)
        if k == "dict":
            return {(tuple(a) if isinstance(a, list) else a): (dict(b) if isinstance(b, dict) else b) for a, b in v}
        raise AssertionError(k)
    return {k: [one(e) for e in v] for k, v in plan.items()}


def see(v):
    """Deep picture of an argument, types included."""
    if isinstance(v, numpy.ndarray):
        return ("array", str(v.dtype), v.shape, v.tolist(), bool(v.flags.writeable))
    if isinstance(v, dict):
        return ("dict", [(see(a), see(b)) for a, b in v.items()])
    if isinstance(v, (set, frozenset)):
        return ("set", sorted(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [see(x) for x in v])
    return (type(v).__name__, v)


# -- sessions -------------------------------------------------------------------
OPS = ["pset", "pset", "polygon", "rect", "round", "text", "flex", "flex", "flex", "robust", "robust", "path", "path", "polypath", "l1", "curve", "curve",
       "label", "bool", "bool", "offset", "slice", "inside", "move", "move", "move", "move", "cell", "cell", "ref", "ref", "write", "write", "read", "read", "read",
       "svg", "svg", "writer", "binary", "hash", "query", "query", "fracture", "copy", "flatten", "setattr", "setattr", "setattr", "prog", "view", "view", "view", "extend", "extend", "extend"]


class Session(object):
    """One user's work; everything it makes stays with it."""

    def __init__(self, gd, plan, who, pool, globally):
        self.gd, self.plan, self.who, self.pool = gd, plan, who, pool
        self.lib = gd.GdsLibrary(plan["lib"], unit=1e-6, precision=1e-9)
        self.x = not globally
        # whether it may make cells that enter the global library, if that is in use
        self.alone_there = globally or not gd.library.use_current_library
        self.cells = []
        self.made = []
        self.left = None
        self.start()

    def start(self):
        """What the session has to begin with: a small layout of its own."""
        gd, v = self.gd, self.plan.get("start", [])
        for i, (layer, datatype, x, y, w) in enumerate(v):
            c = gd.Cell("ABCD"[i], exclude_from_current=self.x)
            c.add(gd.Rectangle((x, y), (x + w, y + 3), layer, datatype))
            c.add(gd.Label("s%d" % w, (x, y), "nw", layer=datatype, texttype=layer))
            c.add(gd.FlexPath([(x, 0), (x + 20, y)], w, layer=layer, datatype=datatype, gdsii_path=w % 2 == 0))
            if i:
                c.add(gd.CellReference(self.cells[i - 1], (x, y), rotation=90 * (w % 4)))
                c.add(gd.CellArray(self.cells[0], 2, 3, (x, y), (y, w)))
            self.cells.append(c)
            self.lib.add(c)
            self.made.extend((c.polygons + c.paths + c.references + c.labels)[: w % 5])

    def arg(self, op, kind, n=0):
        v = self.pool[kind]
        return v[(op["r"][n % len(op["r"])]) % len(v)]

    def hit(self):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left = None
                raise Injected()

    def func(self, k):
        a = 1.0 + k % 3

        def f(u):
            self.hit()
            return (10 * a * u, 4 * math.sin(3 * u))

        def df(u):
            return (10 * a, 12 * math.cos(3 * u))

        def w(u):
            self.hit()
            return 1 + 0.5 * u
        return f, df, w

    def path(self):
        return "%s/%s.gds" % (simfs.ROOT, self.who)

    def elements(self):
        return [e for e in self.made if hasattr(e, "to_gds") and not hasattr(e, "references")]

    def pick(self, op, seq, n=2):
        return seq[op["r"][n % len(op["r"])] % len(seq)] if seq else None

    def do(self, op):
        """Carries out one operation; returns what it shows."""
        gd, r, A = self.gd, op["r"], lambda k, n=0: self.arg(op, k, n)
        k = op["k"]
        self.left = op.get("fail")
        out = None
        opt = op["o"]
        if k == "pset":
            out = gd.PolygonSet(A("polys"), *[3, 1][:r[0] % 3])
        elif k == "polygon":
            out = gd.Polygon(A("points"), r[0] % 4)
        elif k == "rect":
            out = gd.Rectangle(A("point"), self.arg(op, "point", 1))
        elif k == "round":
            out = gd.Round(A("point"), A("two") if opt & 1 else 8, inner_radius=A("radii") if opt & 2 else 0, tolerance=0.5, max_points=[0, 20][opt >> 2 & 1])
        elif k == "text":
            out = gd.Text("x1", 7, A("point"), opt & 1 == 0)
        elif k in ("flex", "robust"):
            n2 = opt & 1
            kw = {"layer": A("ints") if opt & 2 else 1, "datatype": A("ints", 1) if opt & 4 else 0, "ends": A("ends") if opt & 8 else "flush", "tolerance": 0.1,
                  "gdsii_path": opt & 128 == 128}
            w = A("two") if n2 else 1.5
            o = self.pool["offs"][0] if opt & 16 else 3.0
            if k == "flex":
                if opt & 32:
                    kw["corners"] = A("corners")
                elif opt & 64:
                    kw["corners"] = "circular bend"
                    kw["bend_radius"] = A("bends")
                out = gd.FlexPath(A("points"), w, o, **kw)
            else:
                out = gd.RobustPath(A("point"), w, o, **kw)
                out.segment((30, 30), relative=True)
            self.commands(op, out)
        elif k == "path":
            out = gd.Path(1.5, A("point"), number_of_paths=2, distance=4)
            kw = {"layer": A("ints") if opt & 2 else 1, "datatype": A("ints", 1) if opt & 4 else 0}
            out.segment(9, ["+x", "-y", 0.3][r[0] % 3], axis_offset=opt & 1, **kw)
            for i in range(r[1] % 3):
                c = (opt >> i) % 4
                if c == 0:
                    out.turn(5, "l", tolerance=0.1, **kw)
                elif c == 1:
                    out.parametric(self.func(opt)[0], tolerance=0.3, final_width=2, final_distance=5, **kw)
                elif c == 2:
                    out.bezier(A("points"), tolerance=0.5, **kw)
                else:
                    m = len(self.arg(op, "points", 1)) + 1
                    out.smooth(self.arg(op, "points", 1), angles=self.pool["angles"][m - 4] if opt & 8 else None, t_in=self.pool["tension"][m - 4] if opt & 16 else 1, tolerance=0.5, **kw)
        elif k == "polypath":
            out = gd.PolyPath(A("points"), A("two") if opt & 1 else 2, number_of_paths=2, distance=A("two", 1) if opt & 2 else 4,
                              layer=A("ints") if opt & 4 else 1, datatype=A("ints", 1))
        elif k == "l1":
            out = gd.L1Path(A("point"), "+x", 1, A("lens"), A("turns"), number_of_paths=1 + opt % 2, distance=2, layer=A("ints"), datatype=A("ints", 1))
        elif k == "curve":
            out = gd.Curve(1, 2, tolerance=0.3)
            xy = A("xy")
            for i in range(1 + r[0] % 3):
                c = (opt >> i) % 8
                if c == 0:
                    out.L(*xy)
                elif c == 1:
                    out.h(*xy[:2])
                elif c == 2:
                    out.C(*xy)
                elif c == 3:
                    out.s(*xy[:4])
                elif c == 4:
                    out.B(A("points"))
                elif c == 5:
                    out.b(self.arg(op, "points", 1))
                else:
                    pts = A("points")
                    m = len(pts) + 1
                    (out.I if c == 6 else out.i)(pts, self.pool["angles"][m - 4] if opt & 32 else None, t_in=self.pool["tension"][m - 4] if opt & 64 else 1, cycle=opt & 128 == 128)
            return Q.canon(out.get_points())
        elif k == "label":
            out = gd.Label("t", A("point"), ["nw", "o", "se"][r[0] % 3], rotation=opt % 90, layer=opt % 3)
        elif k in ("bool", "offset", "slice", "inside"):
            es = [e for e in self.elements() if hasattr(e, "polygons") or hasattr(e, "gdsii_path")]
            a = [self.pick(op, es, 0), A("polys")][opt & 1] or A("polys")
            if k == "bool":
                out = gd.boolean(a, A("polys") if opt & 2 else [A("points")], ["or", "and", "xor", "not"][r[0] % 4], layer=opt % 5)
            elif k == "offset":
                out = gd.offset(a, 0.5, ["miter", "bevel", "round"][r[0] % 3], join_first=bool(opt & 2), tolerance=4)
            elif k == "slice":
                v = gd.slice(a, A("pos"), r[0] % 2, layer=A("ints") if opt & 2 and len(A("ints")) > len(A("pos")) else 2)
                self.made.extend(x for x in v if x is not None)
                return Q.canon(v)
            else:
                return Q.canon(gd.inside(A("points"), a, ["any", "all"][r[1] % 2]) if opt & 2 else gd.inside([A("points"), [(0, 0)]], a, ["any", "all", None][r[1] % 3]))
        elif k == "move":
            e = self.pick(op, self.made)
            if e is None:
                return None
            c = A("point")
            m = opt % 7
            if m == 0:
                e.translate(3, 4)
            elif m == 1 and hasattr(e, "rotate"):
                e.rotate(0.5, c)
            elif m == 2 and hasattr(e, "scale"):
                e.scale(1.5, center=c)
            elif m == 3 and hasattr(e, "mirror"):
                e.mirror(c, (100, 3))
            elif m == 4 and hasattr(e, "fillet"):
                e.fillet(A("radii") if len(e.polygons) == 2 else 0.5, points_per_2pi=16)
            elif m == 5 and hasattr(e, "fracture"):
                e.fracture(5)
            elif m == 6 and hasattr(e, "transform"):
                e.transform(c, 0.7, 2, True)
            else:
                e.translate(-1, 2)
            return self.show(e)
        elif k == "extend":
            ps = [e for e in self.made if hasattr(e, "gdsii_path")]
            e = self.pick(op, ps)
            if e is None:
                return None
            self.commands(op, e)
            return self.show(e)
        elif k == "setattr":
            # attributes of one's own objects are one's own
            for e in self.made[::1 + opt % 2]:
                if hasattr(e, "layers") and len(e.layers):
                    e.layers[0] = 7
                    e.datatypes[-1] = 8
                if hasattr(e, "properties"):
                    e.properties[5] = "p%d" % opt
                if hasattr(e, "polygons") and len(e.polygons) and isinstance(e.polygons[0], numpy.ndarray):
                    e.polygons[0][0] += 1
                if hasattr(e, "ends") and isinstance(e.ends, list):
                    e.ends[0] = "extended"
                # (references keep the very origin and spacing they were given: left alone)
                for a in ("position", "points", "x", "offsets", "widths"):
                    if isinstance(getattr(e, a, None), numpy.ndarray):
                        v = getattr(e, a)
                        v[:1] += 1
            return [self.show(e) for e in self.made[::1 + opt % 2]]
        elif k == "cell":
            c = gd.Cell("ABCD"[len(self.cells) % 4] + "x" * (len(self.cells) // 4), exclude_from_current=self.x)
            es = [e for e in self.elements()]
            c.add(es if opt & 1 else es[:1 + r[0] % 3])
            self.cells.append(c)
            self.lib.add(c)
            return observe.cell(c)
        elif k == "ref":
            t = self.pick(op, self.cells)
            if t is None:
                return None
            out = gd.CellReference(t, A("point"), rotation=opt % 360) if opt & 1 else gd.CellArray(t, 2, 3, self.arg(op, "point", 1), A("point"), magnification=2)
        elif k == "write":
            s = Q.GStream(fail_at=op.get("io"))
            cs = A("names")
            have = [n for n in cs if n in self.lib.cells]
            if opt & 1 and len(have) == len(cs):
                self.lib.write_gds(s, cells=cs, timestamp=TS)
            else:
                self.lib.write_gds(s, timestamp=TS)
            return s.value()
        elif k == "read":
            self.lib.write_gds(self.path(), timestamp=TS)
            kw = {}
            if opt & 1:
                kw["rename"] = A("rename")
            if opt & 2:
                kw["rename_template"] = ["{name}_z", "y{name}", "{name}{name}"][r[1] % 3]
            for i, n in enumerate(("layers", "datatypes", "texttypes")):
                if opt >> (2 + i) & 1:
                    kw[n] = self.arg(op, "map", i)
            if opt & 32:
                kw["units"] = ["skip", "import", "convert"][r[0] % 3]
            two = gd.GdsLibrary("two")
            if opt & 64:
                two.add(gd.Cell("A", exclude_from_current=True))
            two.read_gds(self.path(), **kw)
            got = [observe.library(two), sorted(c if isinstance(c, str) else c.name for c in two.top_level())]
            if opt & 128:
                # what was read is the reader's
                self.made.extend(e for c in list(two.cells.values())[:2] for e in (c.polygons + c.paths + c.labels)[:2])
            return got
        elif k == "svg":
            c = self.pick(op, self.cells)
            if c is None:
                return None
            s = Q.GStream(text=True, fail_at=op.get("io"))
            c.write_svg(s, 10, style=A("style") if opt & 1 else None, fontstyle=A("style") if opt & 2 else None, background="#222" if opt & 4 else None)
            return s.value()
        elif k == "writer":
            s = Q.GStream(fail_at=op.get("io"))
            w = gd.GdsWriter(s, "w", timestamp=TS)
            for c in self.cells:
                w.write_cell(c, TS)
            w.close()
            return s.value()
        elif k == "binary":
            self.lib.write_gds(self.path(), timestamp=TS)
            b = gd.get_binary_cells(self.path())
            s = Q.GStream()
            l = list(b.values())
            gd.GdsLibrary("q").write_gds(s, binary_cells=l, timestamp=TS)
            return [sorted(b), s.value(), list(gd.get_gds_units(self.path()))]
        elif k == "hash":
            self.lib.write_gds(self.path(), timestamp=datetime.datetime(1990 + opt % 30, 1, 1))
            h = gd.gdsii_hash(self.path())
            gd.set_gdsii_timestamp(self.path(), TS)
            return [h, simfs.current.get(self.path())]
        elif k == "query":
            c = self.pick(op, self.cells)
            if c is None:
                return None
            return [Q.tempsort(Q.canon(c.get_polygons(True, [None, 0][opt & 1]))), Q.canon(c.get_bounding_box()), Q.tempsort(Q.canon(c.area(True))),
                    sorted(c.get_layers()), Q.canon(c.get_labels())]
        elif k == "fracture":
            v = [e for e in self.made if hasattr(e, "fracture")]
            e = self.pick(op, v)
            return None if e is None else Q.canon(e.fracture(5 + r[0] % 4))
        elif k == "view":
            return self.view(op)
        elif k == "copy":
            e = self.pick(op, [x for x in self.made if not hasattr(x, "paths") or hasattr(x, "gdsii_path")])
            if e is None:
                return None
            out = gd.copy(e, 1, 2)
        elif k == "flatten":
            c = self.pick(op, self.cells)
            if c is None or not self.alone_there:
                return None      # it would enter the global library
            f = c.copy("flat%d" % len(self.made), deep_copy=True)
            return observe.cell(f.flatten(*[4, 5, 6][:opt % 4]))
        elif k == "prog":
            if not self.alone_there:
                return None
            return P.run(gd, self.plan["prog"], self.who)
        if out is None:
            return None
        self.made.append(out)
        return self.show(out)

    def view(self, op):
        """The viewer on a simulated display: a few clicks on the list of layers and in the picture, and what is shown then."""
        if not self.cells or not getattr(self, "display", True):
            return None
        r, opt = op["r"], op["o"]
        kw = {"depth": opt & 1}
        if opt & 2:
            kw["hidden_types"] = self.arg(op, "hidden")
        if opt & 4:
            kw["color"] = self.arg(op, "colour")
        if opt & 8:
            kw["pattern"] = self.arg(op, "pattern")
        out = []

        def driver(app):
            canvases = [w for w in app.widgets if isinstance(w, tkstub.Canvas)]
            rows = [w for w in app.widgets if isinstance(w, tkstub.Label) and w.bindings]
            for i, n in enumerate(r):
                app.asks = ["#abcde%d" % (n % 10)]
                if rows:
                    tkstub.fire(rows[n % len(rows)], "Button", 1, x=3, y=3)
            tkstub.fire(canvases[0], "Key", "Home")
            app.flush()
            for c in canvases:
                out.append([[c.items[i].kind, list(c.items[i].coords), sorted((a, str(b)) for a, b in c.items[i].opts.items() if isinstance(b, (str, int, float)) and a != "offset"), c.items[i].tags] for i in c.order])
            out.append([sorted((a, str(b)) for a, b in w.opts.items() if a in ("bg", "fg", "text")) for w in rows])
        tkstub.app.__init__(driver)
        # (patterns are drawn with random offsets, from numpy's generator)
        state = numpy.random.get_state()
        try:
            self.gd.viewer.LayoutViewer(*[[self.lib], [None, list(self.cells)]][opt >> 4 & 1], **kw)
        finally:
            numpy.random.set_state(state)
        return out

    def commands(self, op, p):
        A = lambda k, n=0: self.arg(op, k, n)
        for i in range(op["r"][1] % 3):
            o = op["o"] >> (2 * i)
            w = [None, 2, A("two") if p.n == 2 else None, 1][o & 3] if not p.gdsii_path else None
            f = [None, 0, 0.5, (A("offs", 1) if p.n == 2 else None)][o >> 2 & 3]
            c = o >> 4 & 7
            if c == 0:
                p.segment(A("point"), w, f, relative=True)
            elif c == 1:
                p.arc(6, 0, 1.5, w, f)
            elif c == 2:
                p.turn(7, "r", w, f)
            elif c == 3:
                p.parametric(self.func(o)[0], width=w, offset=f) if p.__class__.__name__ == "FlexPath" else \
                    p.parametric(self.func(o)[0], self.func(o)[1], width=self.func(o)[2] if not p.gdsii_path else None, offset=f)
            elif c in (4, 5):
                p.bezier(A("points", i), w, f)
            else:
                pts = A("points", i)
                m = len(pts) + 1
                p.smooth(pts, self.pool["angles"][m - 4] if o & 1 else None, t_in=self.pool["tension"][m - 4] if o & 2 else 1, t_out=self.pool["tension"][m - 4], width=w, offset=f)

    def show(self, e):
        if hasattr(e, "gdsii_path"):
            out = [observe.element(e)]
            try:
                out.append(Q.tempsort(Q.canon(e.get_polygons(True))))
            except Injected:
                raise
            except Exception as x:
                out.append(type(x).__name__)
            return out
        if hasattr(e, "ref_cell"):
            return [observe.element(e), Q.canon(e.get_bounding_box())]
        return Q.canon(e)

    def step(self, op, exc=None):
        """One operation with its failures: an entry of the results."""
        try:
            return ["ok", self.do(op)]
        except (Injected, Exception) as x:
            if isinstance(x, AssertionError):
                raise
            return ["raised", type(x).__name__]
        finally:
            self.left = None

    def final(self):
        """Everything it has, once more."""
        out = []
        for e in self.made:
            try:
                out.append(self.show(e))
            except Exception as x:
                out.append(type(x).__name__)
        try:
            out.append(observe.library(self.lib))
            s = Q.GStream()
            self.lib.write_gds(s, timestamp=TS)
            out.append(s.value())
        except Exception as x:
            out.append(type(x).__name__)
        return out


def boot_viewer(gd):
    """The module of the viewer, once per process, on a simulated display."""
    mods = tkstub.install(None)
    sys.modules.update(mods)
    sys.modules.pop("gdspy.viewer", None)
    gd.viewer = importlib.import_module("gdspy.viewer")


def settings(gd):
    """State of the process that nobody asked to change."""
    import gc
    import locale
    import os
    lib = sys.modules["gdspy.library"]
    st = numpy.random.get_state()
    rd = random.getstate()
    return {"numpy errors": numpy.geterr(), "numpy printing": repr(numpy.get_printoptions()), "numpy random": (st[0], st[1].tolist()[:9], st[2]), "random": hash(rd),
            "warnings": [(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters], "recursion": sys.getrecursionlimit(), "gc": gc.isenabled(),
            "cwd": os.getcwd(), "locale": locale.setlocale(locale.LC_ALL), "use_current_library": (lib.use_current_library,),
            "path": list(sys.path), "excepthook": sys.excepthook is sys.__excepthook__}


class C09(Check):
    id = "C09"
    title = "independent sessions do not interfere"
    quick = (9000, 80.0)
    thorough = (200000, 780.0)
    real = "gdspy and its compiled extension"
    stub = "disk, clock, thread scheduler, user functions"
    key_measure = "distinct (operations of the sessions in the order they ran or the switches of threads, faults)"
    case_measure = "a case is one session compared with the same session alone in a process of its own; non-trivial if it made at least two objects; distinct by operations, arguments and schedule"
    assumptions = ["sessions share argument objects and the module, nothing else"]

    def op(self, rng):
        op = {"k": rng.choice(OPS), "r": [rng.randrange(60) for _ in range(3)], "o": rng.randrange(256)}
        if op["k"] in ("write", "svg", "writer") and rng.random() < 0.15:
            op["io"] = rng.randrange(0, 600)
        if op["k"] in ("path", "flex", "robust", "extend") and rng.random() < 0.15:
            op["fail"] = rng.choice([0, 1, 2, 5, 20])
        return op

    def plan(self, rng):
        p = {"pool": gen_pool(rng), "sessions": [], "mode": rng.choice(["seq", "steps", "steps", "threads", "threads"])}
        for _ in range(rng.choice([2, 2, 2, 3])):
            ops = [self.op(rng) for _ in range(rng.choice([2, 4, 6, 9]))]
            s = {"lib": rng.choice(["library", "L%d" % rng.randrange(9)]), "ops": ops}
            s["start"] = [[rng.randrange(6), rng.randrange(6), rng.randint(-20, 20), rng.randint(-20, 20), rng.randint(1, 5)] for _ in range(rng.choice([0, 2, 2, 3]))]
            if any(o["k"] == "prog" for o in ops):
                s["prog"] = P.gen(rng)
                # one is enough
                first = [o for o in ops if o["k"] == "prog"][0]
                s["ops"] = [o for o in ops if o["k"] != "prog" or o is first]
            p["sessions"].append(s)
        p["order"] = [rng.randrange(len(p["sessions"])) for _ in range(40)]
        if p["mode"] == "threads":
            p["switches"] = sched.gen_switches(rng, len(p["sessions"]), rng.choice([50, 500, 3000, 20000]))
            if rng.random() < 0.5:
                p["switches"] = []
                p["sites"] = sched.gen_sites(rng, len(p["sessions"])) + sched.gen_sites(rng, len(p["sessions"]))
        elif rng.random() < 0.3:
            p["interrupt"] = [rng.randrange(len(p["sessions"])), rng.randrange(9), int(2 ** rng.uniform(0, 11)), rng.choice(sorted(EXC))]
        if p["mode"] == "threads" and rng.random() < 0.5:
            # a duel: two sessions do the same kind of thing at once, under many schedules
            k = rng.choice(sorted(set(OPS) - {"view", "prog"}))
            p["sessions"] = p["sessions"][:2]
            for i, s in enumerate(p["sessions"]):
                op = self.op(rng)
                op["k"] = k
                s["ops"] = [op]
                s["start"] = [[rng.randrange(6), rng.randrange(6), rng.randint(-20, 20), rng.randint(-20, 20), 4]]
                s.pop("prog", None)
            p["switches"] = []
            p["sites"] = []
            p["rounds"] = [sched.gen_sites(rng, 2) for _ in range(12)]
            return p
        if rng.random() < 0.25:
            p["global"] = rng.choice([[], [0]])      # which sessions use the global library
        return p

    def shrinks(self, plan):
        for i in range(len(plan["sessions"])):
            if len(plan["sessions"]) > 1 and not plan.get("interrupt"):
                q = clone(plan)
                del q["sessions"][i]
                yield q
        for q in generic_shrinks(plan, [("sessions", "*", "ops"), ("switches",), ("sites",), ("rounds",), ("rounds", "*"), ("order",)]):
            yield q
        for k in ("interrupt", "global"):
            if k in plan:
                q = clone(plan)
                del q[k]
                yield q
        for i, s in enumerate(plan["sessions"]):
            if s["start"]:
                q = clone(plan)
                q["sessions"][i]["start"].pop()
                yield q
            if "prog" in s and not any(o["k"] == "prog" for o in s["ops"]):
                q = clone(plan)
                del q["sessions"][i]["prog"]
                yield q
            for j, o in enumerate(s["ops"]):
                if o["o"]:
                    q = clone(plan)
                    q["sessions"][i]["ops"][j]["o"] = 0
                    yield q

    def setting(self, gd, plan):
        on = "global" in plan
        gd.library.use_current_library = on
        return on

    def session(self, gd, plan, i, pool):
        s = Session(gd, plan["sessions"][i], "s%d" % i, pool, i in plan.get("global", []))
        s.display = plan["mode"] != "threads"       # there is one display, with one thread
        return s

    def single(self, gd, plan, i):
        """The session alone, in a process of its own."""
        simfs.current = simfs.SimFS()
        self.setting(gd, plan)
        boot_viewer(gd)
        s = self.session(gd, plan, i, make_pool(plan["pool"]))
        def body():
            return [s.step(op) for op in plan["sessions"][i]["ops"]]
        got, places = sched.record(body) if plan.get("sites") or plan.get("rounds") else (body(), {})
        return got, s.final(), sorted(gd.current_library.cells), list(places.items())

    def run(self, plan, res):
        gd = boot.gdspy
        n = len(plan["sessions"])
        want = []
        for i in range(n):
            v = alone(lambda: self.single(gd, plan, i))
            if v is None:
                res.violate("crash", "session %d alone ends the process" % i)
                return
            want.append(v)
        simfs.current = simfs.SimFS()
        self.setting(gd, plan)
        boot_viewer(gd)
        pool = make_pool(plan["pool"])
        before = see(pool)
        state = settings(gd)
        for sites in plan.get("rounds", [plan.get("sites", [])]):
            if not self.together(gd, plan, sites, n, want, pool, before, state, res):
                return

    def together(self, gd, plan, sites, n, want, pool, before, state, res):
        ses = [self.session(gd, plan, i, pool) for i in range(n)]
        got = [[] for _ in range(n)]
        loose = set()
        ran = []
        if plan["mode"] == "threads":
            def body(i):
                def f():
                    for op in plan["sessions"][i]["ops"]:
                        got[i].append(ses[i].step(op))
                return f
            sc = sched.Sched(plan["switches"], sched.place_sites([[a % n, b, c, d, e] for a, b, c, d, e in sites], [dict(w[3]) for w in want]))
            for kind, v in sc.run([body(i) for i in range(n)]):
                if kind == "raised":
                    raise v
            if sc.dead:
                res.violate("deadlock", sc.dead)
                return False
            res.add({"preemption": sc.preempted})
            ran = sc.trace
            res.see(sc.trace)
        else:
            todo = [list(s["ops"]) for s in plan["sessions"]]
            intr = plan.get("interrupt")
            if intr:
                steps.install(fine=True)
            pick = 0
            while any(todo):
                if plan["mode"] == "seq":
                    i = [j for j in range(n) if todo[j]][0]
                else:
                    i = plan["order"][pick % len(plan["order"])] % n if plan["order"] else 0
                    pick += 1
                    while not todo[i]:
                        i = (i + 1) % n
                op = todo[i].pop(0)
                ran.append((i, op["k"]))
                if intr and i == intr[0] % n and len(got[i]) == intr[1] % max(1, len(plan["sessions"][i]["ops"])):
                    r = ["raised", "interrupt"]
                    try:
                        with steps.Steps(at=intr[2], exc=EXC[intr[3]]) as st:
                            r = ses[i].step(op)
                    except (KeyboardInterrupt, MemoryError):
                        pass
                    ses[i].left = None
                    if st.fired:
                        res.add({intr[3]: 1})
                        loose.add(i)      # its own outcome is another property's business
                    got[i].append(r)
                else:
                    got[i].append(ses[i].step(op))
                d = observe.diff(before, see(pool))
                if d:
                    res.violate("argument-changed", "%s of session %d changed an argument: %s" % (op["k"], i, self.which(before, see(pool))))
                    return False
        d = observe.diff(before, see(pool))
        if d:
            res.violate("argument-changed", "the arguments changed: %s" % self.which(before, see(pool)))
            return False
        for i in range(n):
            ops = plan["sessions"][i]["ops"]
            for op, r in zip(ops, got[i]):
                res.count("operations that %s" % ("raise" if r[0] == "raised" else "do nothing" if r[1] is None else "work"))
                if op.get("io") is not None and r[0] == "raised":
                    res.add({"failing-stream": 1})
                if op.get("fail") is not None and r == ["raised", "Injected"]:
                    res.add({"failing-callback": 1})
            if i in loose:
                continue
            res.evals += 1
            for j, (op, a, b) in enumerate(zip(ops, want[i][0], got[i])):
                d = observe.diff(a, b)
                if d:
                    res.violate("outcome", "operation %d (%s) of session %d alone and with others: %s" % (j, op["k"], i, d))
                    return False
            d = observe.diff(want[i][1], ses[i].final())
            if d:
                res.violate("state", "what session %d made, alone and with others: %s" % (i, d))
                return False
            if len(ses[i].made) >= 2:
                res.case(plan["sessions"][i], plan["pool"], ran)
        now = settings(gd)
        for k in state:
            if state[k] != now[k]:
                res.violate("setting", "%s: %r became %r" % (k, state[k], now[k]))
                return False
        # the global library holds what its users put there
        glob = sorted(set(c for i in range(n) for c in want[i][2]))
        if sorted(gd.current_library.cells) != glob and not loose & set(plan.get("global", [])):
            res.violate("global-library", "holds %r, alone %r" % (sorted(gd.current_library.cells), glob))
        res.key(ran, plan.get("interrupt"), [[o["k"] for o in s["ops"]] for s in plan["sessions"]])
        res.samples.append({"mode": plan["mode"], "sessions": [[o["k"] for o in s["ops"]] for s in plan["sessions"]], "interrupt": plan.get("interrupt")})
        res.see([[r[0] for r in g] for g in got])
        return True

    def which(self, a, b):
        for x, y in zip(a[1], b[1]):
            if x != y:
                return "%s: %s" % (x[0][1], observe.diff(x, y))
        return "?"


CHECK = C09()
