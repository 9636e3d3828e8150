"""Edits of a layout as data, and rebuilding a layout from its contents."""
import copy as _copy
import math

import numpy

from . import spec as S

KINDS = (["add"] * 5 + ["addlist", "share", "move"] + ["tr"] * 8 + ["rmpoly"] * 3 + ["rmpath", "rmlabel", "pop", "pop"] + ["flatten"] * 3 +
         ["ref"] * 5 + ["lbl", "data", "data", "path", "rename", "replace", "replace", "remove", "copy", "copy", "badadd"])


def gen(rng, n, opt, names):
    """`names`: cells that elements may refer to."""
    out = []
    for _ in range(n):
        k = rng.choice(KINDS)
        e = {"e": k, "i": rng.randrange(1000), "j": rng.randrange(1000), "k": rng.randrange(1000), "f": rng.random() < 0.5}
        if k == "add":
            e["el"] = S.element(rng, opt, names)
        elif k in ("addlist", "badadd"):
            e["els"] = [S.element(rng, opt, names) for _ in range(rng.randint(1, 3))]
        elif k == "tr":
            e["op"] = rng.choice(["translate", "translate", "rotate", "scale", "mirror", "fracture", "fillet", "transform", "stretch"])
        elif k in ("rmpoly", "rmpath", "rmlabel"):
            e["pred"] = rng.choice(["all", "none", "layer", "layer", "type", "half", "left"])
            e["fail"] = rng.choice([None, None, None, 0, 1, 2, 4])
        elif k == "flatten":
            e["args"] = [rng.choice([None, None, 0, 7]) for _ in range(3)]
        elif k == "ref":
            e["op"] = rng.choice(["translate", "origin", "rotation", "mag", "xr", "cell", "grid", "noorigin"])
        elif k == "path":
            e["op"] = ["segment", [rng.randint(100, 900), rng.randint(-900, 900)], True, {}]
        elif k == "data":
            e["op"] = rng.choice(["shift", "layer", "append", "swap", "layer"])
        elif k == "copy":
            e["deep"] = rng.random() < 0.6
            e["tf"] = rng.choice([None, None, [3, 4], [-50, 10]])
        out.append(e)
    return out


def reaches(cell, target, seen=None):
    seen = seen if seen is not None else set()
    if cell is target:
        return True
    if id(cell) in seen:
        return False
    seen.add(id(cell))
    for r in cell.references:
        if hasattr(r.ref_cell, "references") and reaches(r.ref_cell, target, seen):
            return True
    return False


def closes(cell, el):
    """Would adding this element make a cell contain itself?"""
    c = getattr(el, "ref_cell", None)
    return hasattr(c, "references") and reaches(c, cell)


def names(cell, name):
    """Does the cell hold a reference by that name?"""
    return any(getattr(r.ref_cell, "name", r.ref_cell) == name for r in cell.references)


def everything(lib):
    """Every cell of the library or reachable from it."""
    out, todo = {}, list(lib.cells.values())
    while todo:
        c = todo.pop()
        if id(c) not in out:
            out[id(c)] = c
            todo.extend(r.ref_cell for r in c.references if hasattr(r.ref_cell, "references"))
    return list(out.values())


def weight(cell, memo=None):
    """How many elements expanding the cell yields."""
    memo = {} if memo is None else memo
    if id(cell) not in memo:
        n = len(cell.polygons) + len(cell.paths) + len(cell.labels)
        for r in cell.references:
            if hasattr(r.ref_cell, "references"):
                n += weight(r.ref_cell, memo) * getattr(r, "columns", 1) * getattr(r, "rows", 1) + 1
        memo[id(cell)] = n
    return memo[id(cell)]


def pick(seq, i):
    seq = list(seq)
    return seq[i % len(seq)] if seq else None


def predicate(e, hooks=None):
    n = [0]

    def tick():
        n[0] += 1
        if e.get("fail") is not None and n[0] > e["fail"]:
            raise RuntimeError("user test")

    def decide(layer, typ, xs):
        p = e["pred"]
        if p == "all":
            return True
        if p == "none":
            return False
        if p == "layer":
            return layer % 2 == e["i"] % 2
        if p == "type":
            return typ % 2 == e["i"] % 2
        if p == "left":
            return min(xs) < 0
        return n[0] % 2 == 0

    def poly(pts, layer, datatype):
        tick()
        return decide(layer, datatype, [float(p[0]) for p in pts])

    def path(p):
        tick()
        return decide(p.layers[0], p.datatypes[0], [1.0])

    def label(l):
        tick()
        return decide(l.layer, l.texttype, [float(l.position[0])])
    return {"rmpoly": poly, "rmpath": path, "rmlabel": label}[e["e"]]


class Skip(Exception):
    """The step does not apply to this layout."""


def apply(gd, lib, e, g, hooks, watch=None):
    """One edit.  Returns a short canonical outcome.  `watch(kind, cell)` is a
    context in which filters and flattening are carried out."""
    k = e["e"]
    c = pick(lib.cells.values(), e["i"])
    if c is None:
        return "skip"
    if k in ("add", "addlist", "badadd"):
        els = [S.make(gd, x, g, lib.cells, hooks) for x in ([e["el"]] if k == "add" else e["els"])]
        if any(closes(c, x) for x in els):
            return "skip"
        if k == "badadd":
            els.insert(len(els) - 1, 5 if e["f"] else None)
            try:
                c.add(els)
            except (ValueError, TypeError):
                return "refused"
            return "accepted"
        c.add(els[0] if k == "add" else (els if e["f"] else iter(els)))
        return "ok"
    if k in ("share", "move"):
        src = pick(lib.cells.values(), e["j"])
        name = ["polygons", "paths", "labels", "references"][e["k"] % 4]
        el = pick(getattr(src, name), e["k"] // 4)
        if el is None or closes(c, el):
            return "skip"
        if k == "move":
            getattr(src, name).remove(el)
        c.add(el)
        return "ok"
    if k == "tr":
        el = pick(list(c.polygons) + list(c.paths) + list(c.labels) + list(c.references), e["j"])
        return transform(gd, el, e, g, watch) if el is not None else "skip"
    if k in ("rmpoly", "rmpath", "rmlabel"):
        f = predicate(e)
        with watch(k, c, e):
            try:
                getattr(c, {"rmpoly": "remove_polygons", "rmpath": "remove_paths", "rmlabel": "remove_labels"}[k])(f)
            except RuntimeError:
                return "raised"
        return "ok"
    if k == "pop":
        name = ["polygons", "paths", "labels", "references"][e["j"] % 4]
        l = getattr(c, name)
        if not l:
            return "skip"
        l.pop(e["k"] % len(l))
        return "ok"
    if k == "flatten":
        if weight(c) > 300:
            return "skip"
        with watch(k, c, e):
            c.flatten(*e["args"])
        return "ok"
    if k == "ref":
        r = pick(c.references, e["j"])
        if r is None:
            return "skip"
        return reference(gd, lib, c, r, e, g)
    if k == "lbl":
        l = pick(c.labels, e["j"])
        if l is None:
            return "skip"
        if e["f"]:
            l.text, l.layer = "new%d" % (e["k"] % 3), e["k"] % 5
        else:
            l.position = numpy.array((e["k"] * g, -e["j"] * g))
            l.rotation = 30.0
        return "ok"
    if k == "data":
        p = pick(c.polygons, e["j"])
        if p is None or not p.polygons:
            return "skip"
        n = e["k"] % len(p.polygons)
        if e["op"] == "shift":
            if p.polygons[n].dtype.kind == "f":
                p.polygons[n][:] += (3 * g, -7 * g)
            else:
                p.polygons[n] = p.polygons[n] + numpy.array((3 * g, -7 * g))
        elif e["op"] == "layer":
            p.layers[n] = e["k"] % 9
            p.datatypes[n] = e["i"] % 3
        elif e["op"] == "append":
            p.polygons.append(numpy.array([(0.0, 0.0), (90 * g, 0.0), (0.0, 70 * g)]))
            p.layers.append(e["k"] % 9)
            p.datatypes.append(0)
        else:
            p.polygons[n] = numpy.array(p.polygons[n])[::-1] * 2
        return "ok"
    if k == "path":
        p = pick(c.paths, e["j"])
        if p is None or any(x == "circular bend" for x in getattr(p, "corners", ())):
            return "skip"
        S.step(p, e["op"], g, hooks)
        return "ok"
    if k == "rename":
        new = "ren%d" % e["j"]
        if new in lib.cells:
            return "skip"
        if any(names(x, c.name) and reaches(c, x) for x in lib.cells.values()):
            return "skip"
        return ["n", lib.rename_cell(c if e["f"] else c.name, new)]
    if k == "replace":
        new = pick(lib.cells.values(), e["j"])
        if new is c:
            return "skip"
        for x in lib.cells.values():
            if names(x, c.name) and reaches(new, x):
                return "skip"
        return ["n", lib.replace_references(c if e["f"] else c.name, new if e["k"] % 2 else new.name)]
    if k == "remove":
        if len(lib.cells) < 2:
            return "skip"
        return ["n", lib.remove(c if e["f"] else c.name, e["k"] % 3 > 0)]
    if k == "copy":
        new = "cp%d" % e["j"]
        if new in lib.cells:
            return "skip"
        if e["tf"]:
            x = c.copy(new, translation=tuple(v * g for v in e["tf"]), rotation=0.5 if e["f"] else None)
        else:
            x = c.copy(new, deep_copy=e["deep"])
        lib.add(x, include_dependencies=False)
        return "ok"
    raise AssertionError(k)


def transform(gd, el, e, g, watch):
    """`watch` gets what each point (x, y) becomes, as a matrix (a, b, c, d, e,
    f): x' = a x + c y + e, y' = b x + d y + f."""
    op = e["op"]
    v = ((e["j"] % 200 - 100) * g, (e["k"] % 200 - 100) * g)

    def centred(a, b, c, d, p):
        return (a, b, c, d, p[0] - a * p[0] - c * p[1], p[1] - b * p[0] - d * p[1])

    moved = (1.0, 0.0, 0.0, 1.0, v[0], v[1])
    if not hasattr(el, "rotate"):       # labels and references
        with watch("tr", el, (moved, True)):
            el.translate(*v)
        return "translate"
    ispath = hasattr(el, "gdsii_path")
    if op == "rotate":
        a = 0.1 * (e["k"] % 60)
        p = v if e["f"] else (0, 0)
        with watch("tr", el, (centred(math.cos(a), math.sin(a), -math.sin(a), math.cos(a), p), True)):
            el.rotate(a, p)
    elif op == "scale":
        s = [2, 0.5, 1.25][e["k"] % 3]
        if ispath and any(c == "circular bend" for c in getattr(el, "corners", ())) and not el.width_transform:
            s = 2
        p = (0, 0) if ispath and e["f"] else v
        with watch("tr", el, (centred(s, 0, 0, s, p), not ispath or el.width_transform or not el.gdsii_path)):
            el.scale(s) if ispath and e["f"] else el.scale(s, center=v)
    elif op == "stretch" and not ispath:
        with watch("tr", el, ((1.5, 0, 0, 0.75, 0, 0), True)):
            el.scale(1.5, 0.75)
    elif op == "mirror" and not ispath:
        dx, dy = 1.0, 2.0 + e["k"] % 3
        n = dx * dx + dy * dy
        with watch("tr", el, (centred((dx * dx - dy * dy) / n, 2 * dx * dy / n, 2 * dx * dy / n, (dy * dy - dx * dx) / n, v), True)):
            el.mirror(v, (v[0] + dx, v[1] + dy))
    elif op == "fracture" and not ispath:
        el.fracture(max_points=[5, 8, 50][e["k"] % 3], precision=g)
    elif op == "fillet" and not ispath:
        el.fillet(5 * g, points_per_2pi=16, precision=g)
    elif op == "transform" and ispath:
        s = 2 if any(c == "circular bend" for c in getattr(el, "corners", ())) else [None, 2, 1.5][e["k"] % 3]
        a = 0.3 if e["f"] else None
        refl = e["j"] % 2 == 0
        k, t = s or 1, a or 0.0
        m = (k * math.cos(t), k * math.sin(t), -k * math.sin(t), k * math.cos(t), v[0], v[1])
        if refl:
            m = (m[0], m[1], -m[2], -m[3], m[4], m[5])
        # a reflection leaves the offsets of a path on their side
        with watch("tr", el, (m, (s is None or el.width_transform or not el.gdsii_path) and not (refl and hasattr(el, "points")))):
            el.transform(v, a, s, refl)
    else:
        with watch("tr", el, (moved, True)):
            el.translate(*v)
    return op


def reference(gd, lib, c, r, e, g):
    op = e["op"]
    v = ((e["j"] % 200 - 100) * g, (e["k"] % 200 - 100) * g)
    if op == "translate":
        r.translate(*v)
    elif op == "origin":
        r.origin = v
    elif op == "rotation":
        r.rotation = [None, 90, 45.0, 180, 30.5][e["k"] % 5]
    elif op == "mag":
        r.magnification = [None, 2, 0.5, 1.0][e["k"] % 4]
    elif op == "xr":
        r.x_reflection = not r.x_reflection
    elif op == "cell":
        new = pick(lib.cells.values(), e["k"])
        if any(any(x is r for x in o.references) and reaches(new, o) for o in everything(lib)):
            return "skip"
        r.ref_cell = new
    elif op == "grid":
        if not hasattr(r, "columns"):
            return "skip"
        r.columns, r.rows, r.spacing = 1 + e["j"] % 2, 1 + e["k"] % 3, (v[0] + 300 * g, v[1] - 300 * g)
    else:
        r.origin = (0, 0)
    return "ok"


# -- rebuilding ---------------------------------------------------------------
def val(v):
    if isinstance(v, numpy.ndarray):
        return numpy.array(v)
    if isinstance(v, list):
        return [val(x) for x in v]
    if isinstance(v, tuple):
        return tuple(val(x) for x in v)
    return v


def rebuild_element(gd, e, cellof):
    """A new object with the same contents, made from public attributes."""
    if hasattr(e, "ref_cell"):
        rc = cellof(e.ref_cell) if hasattr(e.ref_cell, "references") else e.ref_cell
        if hasattr(e, "columns"):
            n = gd.CellArray(rc, e.columns, e.rows, val(e.spacing), val(e.origin), e.rotation, e.magnification, e.x_reflection)
        else:
            n = gd.CellReference(rc, val(e.origin), e.rotation, e.magnification, e.x_reflection)
    elif hasattr(e, "anchor"):
        n = gd.Label(e.text, val(e.position), "o", e.rotation, e.magnification, e.x_reflection, e.layer, e.texttype)
        n.anchor = e.anchor
        n.position = numpy.array(e.position)
    elif hasattr(e, "gdsii_path"):
        w = [1.0] * e.n
        kw = dict(ends=list(e.ends), tolerance=e.tolerance, precision=e.precision, max_points=e.max_points,
                  gdsii_path=e.gdsii_path, width_transform=e.width_transform, layer=list(e.layers), datatype=list(e.datatypes))
        if hasattr(e, "points"):
            n = gd.FlexPath([(0, 0)], w, [0.0] * e.n, corners=list(e.corners), bend_radius=list(e.bend_radius), **kw)
            n.points, n.widths, n.offsets = val(e.points), val(e.widths), val(e.offsets)
        else:
            n = gd.RobustPath((0, 0), w, [0.0] * e.n, max_evals=e.max_evals, **kw)
            n.x, n.widths, n.offsets = val(e.x), val(e.widths), val(e.offsets)
            n.paths = _copy.deepcopy(e.paths)
    else:
        n = gd.PolygonSet([numpy.array(p) for p in e.polygons])
        n.layers, n.datatypes = list(e.layers), list(e.datatypes)
    n.properties = dict(e.properties)
    return n


def rebuild(gd, lib):
    """A fresh library with the same contents."""
    new = gd.GdsLibrary(lib.name, unit=lib.unit, precision=lib.precision)
    memo = {}
    els = {}

    def cellof(c):
        if id(c) not in memo:
            n = memo[id(c)] = gd.Cell(c.name)
            for name in ("references", "polygons", "paths", "labels"):
                for e in getattr(c, name):
                    if id(e) not in els:
                        els[id(e)] = rebuild_element(gd, e, cellof)
                    getattr(n, name).append(els[id(e)])
        return memo[id(c)]
    for k, c in lib.cells.items():
        new.cells[k] = cellof(c)
    return new
