"""Queries and exports as data: generation, execution, canonical results."""
import io

import numpy

from . import boot, observe, simfs, spec as S, util


class GStream(object):
    """A caller's binary stream whose writes are scheduling points."""

    def __init__(self, fail_at=None, text=False):
        self.parts = []
        self.n = 0
        self.fail_at = fail_at
        self.text = text
        self.fired = 0

    def write(self, b):
        from . import sched
        sched.io_point()
        b = b if self.text else bytes(b)
        self.n += len(b)
        if self.fail_at is not None and self.n > self.fail_at:
            self.fired += 1
            raise OSError(28, "No space left (simulated)")
        self.parts.append(b)

    def value(self):
        return ("" if self.text else b"").join(self.parts)


# -- canonical results --------------------------------------------------------
def canon(v, deep=False):
    if v is None or isinstance(v, (str, bytes, bool)):
        return v
    if isinstance(v, numpy.ndarray):
        return observe.arr(v)
    if isinstance(v, dict):
        return {ckey(k): canon(x, deep) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return ("set", tuple(sorted(ckey(x) if not hasattr(x, "name") else ("cell", x.name) for x in v)))
    if isinstance(v, (list, tuple)):
        return tuple(canon(x, deep) for x in v)
    if isinstance(v, (int, float, numpy.integer, numpy.floating)):
        return float(v)
    if hasattr(v, "references") and hasattr(v, "labels"):
        return observe.cell(v)
    if hasattr(v, "gdsii_path"):
        e = observe.element(v)
        if deep:
            try:
                e = (e, canon(v.get_polygons(True)))
            except Exception as x:
                e = (e, type(x).__name__)
        return e
    if hasattr(v, "polygons") or hasattr(v, "ref_cell") or hasattr(v, "anchor"):
        return observe.element(v)
    return repr(type(v))


def ckey(k):
    if isinstance(k, tuple):
        return tuple(ckey(x) for x in k)
    if isinstance(k, (int, float, numpy.integer)):
        return int(k)
    return str(k)


def tempsort(x):
    """Dictionaries whose key order is not promised are compared sorted."""
    if isinstance(x, dict):
        return ("dict", tuple(sorted(((k, tempsort(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, tuple):
        return tuple(tempsort(y) for y in x)
    return x


CELL_OPS = ["polys", "polys", "spec", "spec", "one", "sets", "paths", "labels", "bb", "bb", "area", "areas", "layers", "datatypes",
            "texttypes", "svgc", "deps", "depsr", "str", "copy", "dcopy", "tcopy", "svg", "gds", "iter"]
REF_OPS = ["polys", "spec", "one", "sets", "paths", "labels", "bb", "area", "areas", "str", "gds", "svg"]
EL_OPS = ["e.polys", "e.spec", "e.area", "e.areas", "e.bb", "e.str", "e.gds", "e.svg", "e.set", "e.call", "e.copy"]
LIB_OPS = ["write", "write", "top", "lstr", "writer", "wpath", "liter"]
OPER_OPS = ["bool", "offset", "slice", "inside"]


def gen(rng, n, kinds=None, operations=True):
    out = []
    for _ in range(n):
        what = kinds and rng.choice(kinds) or rng.choice(["cell"] * 5 + ["ref"] * 3 + ["el"] * 3 + ["lib"] * 2 + (["oper"] if operations else []))
        op = rng.choice({"cell": CELL_OPS, "ref": REF_OPS, "el": EL_OPS, "lib": LIB_OPS, "oper": OPER_OPS}[what])
        out.append({"w": what, "op": op, "i": rng.randrange(1000), "j": rng.randrange(1000), "d": rng.choice([None, None, None, 0, 1, 2, -1]),
                    "f": rng.random() < 0.5})
    return out


def pick(lib, cells, q):
    w = q["w"]
    cs = list(cells.values())
    if not cs:
        return None
    c = cs[q["i"] % len(cs)]
    if w in ("cell", "oper"):
        return c
    if w == "ref":
        rs = [r for x in cs for r in x.references]
        return rs[q["i"] % len(rs)] if rs else None
    if w == "el":
        es = [e for x in cs for e in list(x.polygons) + list(x.paths) + list(x.labels)]
        return es[q["i"] % len(es)] if es else None
    return lib


class Ctx(object):
    """Where exports of one reader go."""

    def __init__(self, who="r", ts=None, fail_at=None):
        self.who = who
        self.n = 0
        self.ts = ts or boot.real_datetime(2011, 11, 11, 11, 11, 11)
        self.fail_at = fail_at
        self.streams = []
        self.raw = None      # the last raw result

    def stream(self, text=False):
        s = GStream(self.fail_at, text)
        self.streams.append(s)
        return s


def run(gd, lib, cells, q, ctx):
    """Executes one query; returns canonical data or ("raised", type)."""
    t = pick(lib, cells, q)
    if t is None:
        return None
    v = call(gd, lib, cells, q, ctx, t)
    ctx.raw = v
    return tempsort(canon(v, deep=q["op"] in ("paths",) and q["f"]))


def guarded(gd, lib, cells, q, ctx):
    try:
        return run(gd, lib, cells, q, ctx)
    except Exception as e:
        return ("raised", type(e).__name__)


def call(gd, lib, cells, q, ctx, t):
    op, d, f, j = q["op"], q["d"], q["f"], q["j"]
    if op == "polys":
        return t.get_polygons(depth=d) if d is not None else t.get_polygons()
    if op == "spec":
        return t.get_polygons(by_spec=True, depth=d)
    if op == "one":
        ls = [(l, dd) for l, dd in specs(cells)]
        k = ls[j % len(ls)] if ls else (0, 0)
        return t.get_polygons(k, depth=d)
    if op == "sets":
        return t.get_polygonsets(depth=d)
    if op == "paths":
        return t.get_paths(depth=d)
    if op == "labels":
        return t.get_labels(depth=d, set_transform=f)
    if op == "bb":
        return t.get_bounding_box()
    if op == "area":
        return t.area()
    if op == "areas":
        return t.area(by_spec=True)
    if op == "layers":
        return t.get_layers()
    if op == "datatypes":
        return t.get_datatypes()
    if op == "texttypes":
        return t.get_texttypes()
    if op == "svgc":
        return t.get_svg_classes()
    if op == "deps":
        return t.get_dependencies()
    if op == "depsr":
        return t.get_dependencies(True)
    if op == "str":
        return [str(t), repr(t) if type(t).__repr__ is not object.__repr__ else None]
    if op == "copy":
        return t.copy("copy")
    if op == "dcopy":
        return t.copy("copy", deep_copy=True)
    if op == "tcopy":
        dx, dy, rot, mag, refl = tcopy(q)
        return t.copy("copy", translation=(3, 4) if f else None, rotation=rot or None, scale=mag if mag != 1 else None, x_reflection=refl)
    if op == "svg":
        s = ctx.stream(True)
        if q["w"] == "ref":
            t.to_svg(s, 10, None)
        elif j % 4 == 0:
            t.to_svg(s, 10, 3, "")
        else:
            t.write_svg(s, precision=3 if f else None)
        return s.value()
    if op == "gds":
        s = ctx.stream()
        if q["w"] == "ref":
            t.to_gds(s, 1000)
        else:
            t.to_gds(s, 1000, timestamp=ctx.ts)
        return s.value()
    if op == "iter":
        return [observe.element(e) for e in t]
    if op == "e.polys":
        return t.get_polygons() if hasattr(t, "gdsii_path") else [numpy.array(p) for p in getattr(t, "polygons", [])]
    if op == "e.spec":
        return t.get_polygons(True) if hasattr(t, "gdsii_path") else None
    if op in ("e.area", "e.areas"):
        return t.area(op == "e.areas") if hasattr(t, "area") else None
    if op == "e.bb":
        return t.get_bounding_box() if hasattr(t, "get_bounding_box") else None
    if op == "e.str":
        return [str(t) if not callable(getattr(t, "ends", None)) else None]
    if op == "e.gds":
        s = ctx.stream()
        t.to_gds(s, 1000)
        return s.value()
    if op == "e.svg":
        s = ctx.stream(True)
        t.to_svg(s, 10, None)
        return s.value()
    if op == "e.set":
        return t.to_polygonset() if hasattr(t, "to_polygonset") else None
    if op == "e.call":
        if hasattr(t, "grad"):
            u = (j % 100) / 100.0 * len(t)
            return [t(u, j % t.n), t.grad(u, j % t.n), t.width(u)]
        return None
    if op == "e.copy":
        return gd.copy(t, 3, 4)
    if op == "write":
        s = ctx.stream()
        lib.write_gds(s, timestamp=ctx.ts) if f else lib.write_gds(s, cells=list(cells), timestamp=ctx.ts)
        return s.value()
    if op == "top":
        return [c.name for c in lib.top_level()]
    if op == "lstr":
        return str(lib)
    if op == "liter":
        return [c.name for c in lib]
    if op == "writer":
        s = ctx.stream()
        w = gd.GdsWriter(s, lib.name, lib.unit, lib.precision, ctx.ts)
        for c in cells.values():
            w.write_cell(c, ctx.ts)
        w.close()
        return s.value()
    if op == "wpath":
        ctx.n += 1
        p = "%s/%s-%d.gds" % (simfs.ROOT, ctx.who, ctx.n)
        lib.write_gds(p, timestamp=ctx.ts)
        return simfs.current.get(p)
    # operations over the layout (operands are only read)
    other = list(cells.values())[j % len(cells)]
    a = (t.polygons + t.paths)[:3]
    b = (other.references + other.polygons)[:2]
    if op == "bool":
        if not a:
            return None
        return gd.boolean(a, b or None, ["or", "and", "xor", "not"][j % 4], layer=5)
    if op == "offset":
        return gd.offset(a, 0.01 if f else -0.01, layer=5) if a else None
    if op == "slice":
        return gd.slice(a, [0, 0.1], j % 2) if a else None
    return gd.inside([(0, 0), (0.1, 0.2)], a, ["any", "all"][j % 2]) if a else None


def tcopy(q):
    """Translation, rotation, scale and reflection of a copy."""
    f, j = q["f"], q["j"]
    return (3.0, 4.0, 0.5 if j % 2 else 0.25 if j % 4 else 0, 2 if j % 3 else 1, j % 5 == 0) if f else (0.0, 0.0, 0.5 if j % 2 else 0.25, 2 if j % 3 else 1, j % 5 == 0)


def specs(cells):
    """(layer, datatype) pairs that elements carry."""
    out = []
    for c in cells.values():
        for p in c.polygons:
            out.extend(zip(p.layers, p.datatypes))
        for p in c.paths:
            out.extend(zip(p.layers, p.datatypes))
    return sorted(set((int(a), int(b)) for a, b in out))


def options(**k):
    """Layouts whose every query is cheap."""
    a = dict(hugearr=0.0, big=0.0, far=0.0, cells=(1, 4), els=(1, 4), cr=([1, 2], [1, 2, 3]), missing=0.03,
             kinds=["poly"] * 2 + ["pset", "rect", "round", "flex", "flex", "flexg", "robust", "robustg", "label", "label",
                    "sref", "sref", "aref", "aref", "text"])
    a.update(k)
    return S.Opt(**a)
