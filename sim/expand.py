"""What a hierarchy shows: an independent model of reference expansion, and a
reader for SVG documents that arrives at the same kind of picture.

A picture is a list of polygons (key, points) and a list of labels (text,
layer, texttype, anchor, position, rotation, magnification, reflection).  Keys
are (layer, datatype), or the name of a cell where the depth ends.  Only the
contents of each cell are asked from the code under test (the vertices of its
polygon sets and the outlines of its own paths); every placement is calculated
here.
"""
import math
import re
import xml.etree.ElementTree as ET

import numpy

ID = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)       # x' = a x + c y + e, y' = b x + d y + f


class TooLarge(Exception):
    pass


def mul(m, n):
    """First n, then m."""
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return (a * A + c * B, b * A + d * B, a * C + c * D, b * C + d * D, a * E + c * F + e, b * E + d * F + f)


def put(m, p):
    p = numpy.asarray(p, dtype=float)
    a, b, c, d, e, f = m
    if p.ndim == 1:
        return numpy.array((a * p[0] + c * p[1] + e, b * p[0] + d * p[1] + f))
    return numpy.stack((a * p[:, 0] + c * p[:, 1] + e, b * p[:, 0] + d * p[:, 1] + f), axis=1)


def move(x, y):
    return (1.0, 0.0, 0.0, 1.0, float(x), float(y))


def scale(x, y):
    return (float(x), 0.0, 0.0, float(y), 0.0, 0.0)


def turn(deg):
    r = math.radians(float(deg) % 360.0)
    c, s = math.cos(r), math.sin(r)
    return (c, s, -s, c, 0.0, 0.0)


def places(ref):
    """The transformations of a reference, columns first."""
    m = ID if ref.origin is None else move(*ref.origin)
    if ref.rotation is not None:
        m = mul(m, turn(ref.rotation))
    if ref.x_reflection:
        m = mul(m, scale(1, -1))
    mag = ID if ref.magnification is None else scale(ref.magnification, ref.magnification)
    if hasattr(ref, "columns"):
        return [mul(mul(m, move(ref.spacing[0] * i, ref.spacing[1] * j)), mag) for i in range(ref.columns) for j in range(ref.rows)]
    return [mul(m, mag)]


def real(ref):
    return hasattr(ref.ref_cell, "references")


class Model(object):
    def __init__(self, limit=6000, skeleton=()):
        """skeleton: without paths, and with a mark in all other cells, so that each
        placement shows."""
        self.own = {}
        self.skeleton = skeleton
        self.limit = limit
        self.n = 0

    def leaf(self, c):
        """Polygons and outlines of the cell itself."""
        if id(c) not in self.own:
            out = []
            for s in c.polygons:
                for p, l, d in zip(s.polygons, s.layers, s.datatypes):
                    out.append(((int(l), int(d)), numpy.array(p, dtype=float)))
            if self.skeleton and c not in self.skeleton:
                out.append(("mark", numpy.array(((0.0, 0.0), (1.0, 0.0), (0.0, 2.0)))))
            for x in [] if self.skeleton else c.paths:
                for (l, d), ps in x.get_polygons(True).items():
                    out.extend(((int(l), int(d)), numpy.array(p, dtype=float)) for p in ps)
            self.own[id(c)] = (c, out)
        return self.own[id(c)][1]

    def tick(self, n):
        self.n += n
        if self.n > self.limit:
            raise TooLarge()

    def polygons(self, c, depth=None, m=ID):
        if depth is not None and depth < 0:
            ps = [p for _, p in self.polygons(c)]
            if not ps:
                return []
            a = numpy.concatenate(ps)
            (x0, y0), (x1, y1) = a.min(axis=0), a.max(axis=0)
            return [(c.name, put(m, [(x0, y0), (x0, y1), (x1, y1), (x1, y0)]))]
        out = [(k, put(m, p)) for k, p in self.leaf(c)]
        self.tick(len(out))
        for r in c.references:
            if real(r):
                for n in places(r):
                    out += self.polygons(r.ref_cell, None if depth is None else depth - 1, mul(m, n))
        return out

    def ref_polygons(self, r, depth=None):
        out = []
        if real(r):
            for n in places(r):
                out += self.polygons(r.ref_cell, depth, n)
        return out

    def sets(self, c, depth=None, m=ID, paths=False):
        """Polygon sets only; below the depth there is nothing."""
        out = []
        for s in c.polygons:
            for p, l, d in zip(s.polygons, s.layers, s.datatypes):
                out.append(((int(l), int(d)), put(m, p)))
        self.tick(len(out))
        if depth is None or depth > 0:
            for r in c.references:
                if real(r):
                    for n in places(r):
                        out += self.sets(r.ref_cell, None if depth is None else depth - 1, mul(m, n))
        return out

    def ref_sets(self, r, depth=None):
        return [x for n in places(r) for x in self.sets(r.ref_cell, depth, n)] if real(r) else []

    def labels(self, c, depth=None, m=ID, state=(0.0, 1.0, False)):
        out = []
        for l in c.labels:
            rot, mag, refl = state
            own = 0.0 if l.rotation is None else float(l.rotation)
            out.append((l.text, int(l.layer), int(l.texttype), int(l.anchor), put(m, l.position),
                        rot + (-own if refl else own), mag * (1.0 if l.magnification is None else float(l.magnification)),
                        bool(l.x_reflection) != refl))
        self.tick(len(out))
        if depth is None or depth > 0:
            for r in c.references:
                if real(r):
                    s = self.below(r, state)
                    for n in places(r):
                        out += self.labels(r.ref_cell, None if depth is None else depth - 1, mul(m, n), s)
        return out

    def below(self, r, state):
        rot, mag, refl = state
        own = 0.0 if r.rotation is None else float(r.rotation)
        return (rot + (-own if refl else own), mag * (1.0 if r.magnification is None else float(r.magnification)),
                refl != bool(r.x_reflection))

    def layers(self, c, kind, seen=None):
        """Layers, datatypes or texttypes of a cell and what it refers to."""
        seen = {} if seen is None else seen
        if id(c) in seen:
            return set()
        seen[id(c)] = c
        out = set()
        if kind != "texttypes":
            for x in list(c.polygons) + list(c.paths):
                out.update(int(v) for v in getattr(x, kind))
        if kind != "datatypes":
            out.update(int(l.layer if kind == "layers" else l.texttype) for l in c.labels)
        for r in c.references:
            if real(r):
                out |= self.layers(r.ref_cell, kind, seen)
        return out

    def dependencies(self, c, recursive):
        out = {}
        todo = [c]
        while todo:
            for r in todo.pop().references:
                if real(r) and id(r.ref_cell) not in out:
                    out[id(r.ref_cell)] = r.ref_cell
                    if recursive:
                        todo.append(r.ref_cell)
        return list(out.values())

    def ref_labels(self, r, depth=None):
        return [x for n in places(r) for x in self.labels(r.ref_cell, depth, n, self.below(r, (0.0, 1.0, False)))] if real(r) else []


# -- comparison ----------------------------------------------------------------
def polygon_diff(want, got, tol=1e-9):
    """Both are lists of (key, points), in any order."""
    if len(want) != len(got):
        return "%d polygons instead of %d" % (len(got), len(want))
    size = max([1.0] + [float(numpy.abs(p).max()) for _, p in want if len(p)])
    left = {}
    for k, p in got:
        left.setdefault((k, len(p)), []).append(numpy.asarray(p, dtype=float))
    for k, p in want:
        for i, q in enumerate(left.get((k, len(p)), ())):
            if len(p) == 0 or not (numpy.abs(p - q).max() > tol * size):
                del left[(k, len(p))][i]
                break
        else:
            near = left.get((k, len(p)), [])
            return "no polygon %s %s%s" % (k, p[:4].tolist(), ", but %s" % near[0][:4].tolist() if near else "")
    return None


def label_diff(want, got, transform=True, tol=1e-9):
    if len(want) != len(got):
        return "%d labels instead of %d" % (len(got), len(want))
    size = max([1.0] + [float(numpy.abs(w[4]).max()) for w in want])
    left = list(got)
    for w in want:
        for i, g in enumerate(left):
            if w[:4] != g[:4] or numpy.abs(w[4] - g[4]).max() > tol * size:
                continue
            if transform:
                if w[7] != g[7] or abs(w[6] - g[6]) > 1e-9 * max(1.0, abs(w[6])) or abs((w[5] - g[5] + 180.0) % 360.0 - 180.0) > 1e-6:
                    continue
            del left[i]
            break
        else:
            return "no label %r (there are %r)" % (w, left[:2])
    return None


def shown(l):
    """A label as a picture holds it."""
    return (l.text, int(l.layer), int(l.texttype), int(l.anchor), numpy.array(l.position, dtype=float),
            0.0 if l.rotation is None else float(l.rotation), 1.0 if l.magnification is None else float(l.magnification),
            bool(l.x_reflection))


def dict_polygons(d):
    return [(k if isinstance(k, str) else (int(k[0]), int(k[1])), p) for k, ps in d.items() for p in ps]


# -- SVG -------------------------------------------------------------------------
SVG = "{http://www.w3.org/2000/svg}"
HREF = "{http://www.w3.org/1999/xlink}href"


def transform(s):
    m = ID
    for name, args in re.findall(r"(\w+)\s*\(([^)]*)\)", s or ""):
        v = [float(x) for x in re.split(r"[\s,]+", args.strip())]
        if name == "translate":
            n = move(v[0], v[1] if len(v) > 1 else 0.0)
        elif name == "scale":
            n = scale(v[0], v[1] if len(v) > 1 else v[0])
        elif name == "rotate":
            n = turn(v[0])
            if len(v) == 3:
                n = mul(mul(move(v[1], v[2]), n), move(-v[1], -v[2]))
        elif name == "matrix":
            n = tuple(v)
        else:
            raise ValueError("transform %r" % name)
        m = mul(m, n)
    return m


ANCHORS = {"start": 0, "middle": 1, "end": 2}
LINES = {"text-before-edge": 0, "central": 4, "text-after-edge": 8}


def svg(doc, limit=20000):
    """The picture of an SVG document: polygons, labels (with their matrix in
    place of the position) and the view box, in the coordinates of the root."""
    root = ET.fromstring(doc)
    ids = {}
    for g in root.iter(SVG + "g"):
        if g.get("id") is not None:
            ids.setdefault(g.get("id"), g)
    polys, texts = [], []

    def walk(el, m):
        if len(polys) + len(texts) > limit:
            raise TooLarge()
        if el.tag == SVG + "defs" or el.tag == SVG + "style":
            return
        m = mul(m, transform(el.get("transform")))
        if el.tag == SVG + "polygon":
            k = re.fullmatch(r"l(-?\d+)d(-?\d+)", el.get("class"))
            pts = [tuple(float(v) for v in p.split(",")) for p in el.get("points").split()]
            polys.append(((int(k.group(1)), int(k.group(2))), put(m, numpy.array(pts).reshape(-1, 2))))
        elif el.tag == SVG + "text":
            k = re.fullmatch(r"l(-?\d+)t(-?\d+)", el.get("class"))
            a = LINES[el.get("dominant-baseline")] + ANCHORS[el.get("text-anchor")]
            texts.append((el.text or "", int(k.group(1)), int(k.group(2)), a, m))
        elif el.tag == SVG + "use":
            x = el.get(HREF, "")
            if x[:1] == "#" and x[1:] in ids:
                walk(ids[x[1:]], m)
        else:
            for c in el:
                walk(c, m)
    walk(root, ID)
    box = [float(v) for v in root.get("viewBox").split()]
    return polys, texts, box


def classes(doc):
    """Classes that have a style."""
    return set(re.findall(r"^\.(l-?\d+[dt]-?\d+) \{", doc, re.M))


def svg_diff(doc, cell, scaling, exact=True, model=None):
    """None, or how the document differs from what the cell shows."""
    model = model or Model()
    polys, texts, box = svg(doc)
    flip = scale(1, -1)
    want = [(k, put(flip, p * scaling)) for k, p in model.polygons(cell)]
    labs = model.labels(cell)
    if not exact:
        if sorted(k for k, _ in want) != sorted(k for k, _ in polys):
            return "polygons %s instead of %s" % (sorted(k for k, _ in polys)[:9], sorted(k for k, _ in want)[:9])
        if sorted(l[:4] for l in labs) != sorted(t[:4] for t in texts):
            return "labels %s instead of %s" % (sorted(t[:4] for t in texts)[:3], sorted(l[:4] for l in labs)[:3])
    else:
        d = polygon_diff(want, polys, 1e-8)
        if d:
            return d
        # a text is upright in a document that is turned upside down
        got = []
        for text, l, t, a, m in texts:
            p = put(m, numpy.zeros(2)) * (1, -1) / scaling
            x = put(m, (1.0, 0.0)) - put(m, (0.0, 0.0))
            y = put(m, (0.0, 1.0)) - put(m, (0.0, 0.0))
            det = x[0] * y[1] - x[1] * y[0]
            got.append((text, l, t, a, p, math.degrees(math.atan2(-x[1], x[0])), math.hypot(*x), bool(det < 0)))
        d = label_diff(labs, got, True, 1e-8)
        if d:
            return d
        if want:
            a = numpy.concatenate([p for _, p in want if len(p)])
            (x0, y0), (x1, y1) = a.min(axis=0), a.max(axis=0)
            tol = 1e-8 * max(1.0, float(numpy.abs(a).max()))
            if not (box[0] <= x0 + tol and box[1] <= y0 + tol and box[0] + box[2] >= x1 - tol and box[1] + box[3] >= y1 - tol):
                return "the picture %s is outside of the view box %s" % ([x0, y0, x1, y1], box)
    used = set("l%dd%d" % k for k, _ in polys) | set("l%dt%d" % t[1:3] for t in texts)
    if not used <= classes(doc):
        return "no style for %s" % sorted(used - classes(doc))
    return None
