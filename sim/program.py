"""Whole user programs: build a layout, edit it, export it.

`run(plan)` is everything a process does, from nothing, and returns the bytes
of every export in order.  Timestamps are explicit throughout.
"""
import datetime

from . import edits as E, queries as Q, simfs, spec as S

EXPORTS = ("write", "write", "writec", "writer", "writer", "cell", "svg", "svg", "reread", "top", "element", "extract", "bool", "flat", "polys")


def gen(rng, o=None):
    o = o or S.Opt(**{**dict(hugearr=0.0, big=0.0, far=0.0, cells=(2, 6), els=(1, 4), cr=([1, 2], [1, 2, 3]), missing=0.03,
                             kinds=["poly", "pset", "rect", "round", "flex", "flexg", "robust", "robustg", "label", "label",
                                    "sref", "sref", "sref", "aref", "text"])})
    spec = S.gen(rng, o)
    names = [c["name"] for c in spec["cells"]]
    order = list(range(len(names)))
    rng.shuffle(order)
    return {"spec": spec, "order": order[:rng.randint(1, len(order))], "edits": E.gen(rng, rng.choice([0, 0, 1, 3, 5]), o, names),
            "ts": [rng.randint(1970, 2070), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)],
            "exports": [{"x": rng.choice(EXPORTS), "i": rng.randrange(1000), "j": rng.randrange(1000), "f": rng.random() < 0.5}
                        for _ in range(rng.randint(1, 5))]}


def build(gd, p):
    """The library grows by adding top cells with their dependencies."""
    spec = p["spec"]
    g = S.grid(spec)
    tmp, cells = S.build(gd, spec)
    lib = gd.GdsLibrary(spec["name"], unit=spec["unit"], precision=spec["precision"])
    every = list(cells.values())
    for i in p["order"]:
        c = every[i % len(every)]
        if c.name not in lib.cells:
            lib.add(c, include_dependencies=True)
    for e in p["edits"]:
        # edits draw cells from the library that holds them all
        E.apply(gd, lib, e, g, S.Hooks(), null)
    return lib


class null(object):
    def __init__(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def run(gd, p, who="p"):
    lib = build(gd, p)
    ts = datetime.datetime(*p["ts"])
    return [export(gd, lib, x, ts, "%s/%s%d.gds" % (simfs.ROOT, who, i)) for i, x in enumerate(p["exports"])]


def export(gd, lib, x, ts, path):
    try:
        return _export(gd, lib, x, ts, path)
    except Exception as e:
        return ("raised", type(e).__name__)


def _export(gd, lib, x, ts, path):
    op, i, j, f = x["x"], x["i"], x["j"], x["f"]
    cells = list(lib.cells.values())
    if not cells:
        return None
    c = cells[i % len(cells)]
    if op == "write":
        if f:
            lib.write_gds(path, timestamp=ts)
            return simfs.current.get(path)
        s = Q.GStream()
        lib.write_gds(s, timestamp=ts)
        return s.value()
    if op == "writec":
        s = Q.GStream()
        lib.write_gds(s, cells=[c.name if f else c] + [d for d in cells[j % len(cells):][:1] if d is not c], timestamp=ts)
        return s.value()
    if op == "writer":
        s = Q.GStream()
        w = gd.GdsWriter(s, lib.name, lib.unit, lib.precision, ts)
        for d in [c] + sorted((d for d in c.get_dependencies(True) if hasattr(d, "references")), key=lambda d: d.name):
            w.write_cell(d, ts)
        w.close()
        return s.value()
    if op == "cell":
        s = Q.GStream()
        c.to_gds(s, 1000, ts)
        return s.value()
    if op == "svg":
        s = Q.GStream(text=True)
        c.write_svg(s, 10, background=None if f else "#222", precision=[None, 4][j % 2],
                    style={(0, 0): {"fill": "red", "stroke": "none"}} if j % 3 else None)
        return s.value()
    if op == "top":
        return [t.name for t in lib.top_level()]
    if op == "reread":
        lib.write_gds(path, timestamp=ts)
        two = gd.GdsLibrary(unit=lib.unit, precision=lib.precision)
        two.read_gds(path, units=["skip", "import", "convert"][j % 3], rename_template="{name}_r" if f else "{name}")
        s = Q.GStream()
        two.write_gds(s, timestamp=ts)
        b = gd.get_binary_cells(path)
        w = gd.GdsWriter(s, lib.name, lib.unit, lib.precision, ts)
        for k in b.values():
            w.write_binary_cells([k])
        w.close()
        return s.value()
    if op == "extract":
        two = gd.GdsLibrary(unit=lib.unit, precision=lib.precision)
        two.add(c, overwrite_duplicate=True)
        s = Q.GStream()
        two.write_gds(s, timestamp=ts)
        out = [s.value(), sorted(two.cells)]
        two.remove(cells[j % len(cells)].name if f else cells[j % len(cells)])
        s = Q.GStream()
        two.write_gds(s, timestamp=ts)
        return out + [s.value()]
    s = Q.GStream()
    new = gd.Cell("new", exclude_from_current=True)
    if op == "element":
        for e in list(c.polygons) + list(c.paths) + list(c.labels) + list(c.references):
            e.to_gds(s, 1000)
        return s.value()
    if op == "bool":
        a = (c.polygons + c.paths)[:3]
        b = (c.references + cells[j % len(cells)].polygons)[:2]
        if not a:
            return None
        r = gd.boolean(a, b or None, ["or", "and", "xor", "not"][j % 4], layer=5) if f else gd.offset(a, 0.02, "round", layer=5)
        if r is not None:
            new.add(r)
    elif op == "flat":
        new = c.copy("flat", deep_copy=True).flatten(None if f else 3)
    elif op == "polys":
        for k, v in c.get_polygons(True, None if f else 0).items():
            new.add(gd.PolygonSet(v, *([k] if isinstance(k, tuple) else [[9, 9]])[0]))
        for k, v in c.area(True).items():
            new.add(gd.Label("%r" % (k,), (v, 0)))
        for n in sorted(c.get_layers()):
            new.add(gd.Label("%d" % n, (0, 0)))
    new.to_gds(s, 1000, ts)
    return s.value()
