"""C11: answers reflect the current layout after any history of edits and queries."""
import contextlib
import math

import numpy

from .. import boot, edits as E, expand as X, observe, queries as Q, simfs, spec as S, steps, util
from ..runner import Check, clone, generic_shrinks

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
LIMIT = 1500          # expanded elements; larger layouts are not edited further


def options(**k):
    return Q.options(cells=(2, 4), els=(1, 3), cr=([1, 2], [1, 2]), missing=0.05, frac=0.1, **k)


class C11(Check):
    id = "C11"
    title = "answers always reflect the current layout"
    quick = (6000, 70.0)
    thorough = (80000, 800.0)
    real = "gdspy and its compiled extension"
    stub = "disk, clock; interrupts of queries and exceptions of user tests delivered at chosen points"
    key_measure = "distinct (previous query or edit, edit, query) triples"
    case_measure = "a case is one query after a history of edits and queries; non-trivial if the history before it holds at least one edit that took effect and one earlier query; distinct by contents and query"
    assumptions = ["attributes of paths other than through their methods are not assigned"]

    def plan(self, rng):
        o = options()
        p = {"spec": S.gen(rng, o)}
        names = [c["name"] for c in p["spec"]["cells"]]
        h = []
        style = rng.choice(["mixed", "mixed", "warm", "dense"])
        if style == "warm":
            h += [{"t": "q", "q": q} for q in Q.gen(rng, 3)]
        for _ in range(rng.randint(2, 8)):
            if style == "dense" or rng.random() < 0.75:
                for e in E.gen(rng, rng.randint(1, 3 if style != "dense" else 2), o, names):
                    h.append({"t": "e", "e": e})
            for q in Q.gen(rng, rng.randint(0, 2)):
                h.append({"t": "q", "q": q})
                if rng.random() < 0.12:
                    h[-1]["irq"] = [rng.random(), rng.choice(sorted(EXC))]
        h += [{"t": "q", "q": q} for q in Q.gen(rng, 2)]
        p["h"] = h
        return p

    def shrinks(self, plan):
        for q in generic_shrinks(plan, [("h",)] + util.spec_lists()):
            S.fix(q["spec"])
            yield q
        for i, s in enumerate(plan["h"]):
            if "irq" in s:
                q = clone(plan)
                del q["h"][i]["irq"]
                yield q
            if "el" in s.get("e", ()) and s["e"]["el"]["k"] != "rect":
                q = clone(plan)
                q["h"][i]["e"]["el"] = {"k": "rect", "a": [0, 0], "b": [5, 7], "l": 1, "d": 1}
                yield q
        yield from util.simplify_elements(plan)

    def run(self, plan, res):
        gd = boot.gdspy
        simfs.current = simfs.SimFS()
        irqs = any("irq" in s for s in plan["h"])
        if irqs:
            steps.install(fine=True)
        g = S.grid(plan["spec"])
        lib, _ = S.build(gd, plan["spec"])
        hooks = S.Hooks()
        done = []          # edits carried out so far
        asked = 0
        effective = 0
        last = "-"
        for n, s in enumerate(plan["h"]):
            if s["t"] == "e":
                w = Watch(gd, res, self)
                out = E.apply(gd, lib, s["e"], g, hooks, w)
                if w.bad:
                    res.violate(*w.bad)
                    return
                done.append((s["e"], out))
                res.see(s["e"]["e"], out)
                if out != "skip":
                    effective += 1
                    last = s["e"]["e"] + "." + str(s["e"].get("op", ""))[:9]
                    res.count("edits")
                    if out == "raised":
                        res.add({"user test raises": 1})
                    if out == "refused":
                        res.add({"element refused": 1})
                if sum(E.weight(c) for c in lib.cells.values()) > LIMIT:
                    res.count("histories ended: layout too large")
                    return
                continue
            q = s["q"]
            label = "%s.%s" % (q["w"], q["op"])
            cells = dict(lib.cells)
            if "irq" in s:
                total = self.length(gd, lib, q)
                st = steps.Steps(at=1 + int(s["irq"][0] * total), exc=EXC[s["irq"][1]])
                try:
                    with st:
                        Q.run(gd, lib, cells, q, Q.Ctx("g"))
                except (Exception, KeyboardInterrupt):
                    pass
                if st.fired:
                    res.add({"query interrupted": 1})
                last = "irq." + label
                continue
            got = Q.guarded(gd, lib, cells, q, Q.Ctx("g"))
            asked += 1
            # the same history without any query
            lib2, _ = S.build(gd, plan["spec"])
            for e, out in done:
                out2 = E.apply(gd, lib2, e, g, S.Hooks(), null)
                if out2 != out:
                    res.violate("edit-differs", "%s returned %r after queries and %r without" % (e["e"], out, out2))
                    return
            res.evals += 2
            d = observe.diff(Q.guarded(gd, lib2, dict(lib2.cells), q, Q.Ctx("g")), got)
            if d:
                res.violate("history-shows", "%s after %s: %s" % (label, self.tale(done), d))
                return
            # a new layout with the same contents
            lib3 = E.rebuild(gd, lib)
            d = None
            ctx = Q.Ctx("g")
            if q["op"] not in ("str", "e.str"):
                d = observe.diff(plain(Q.guarded(gd, lib3, dict(lib3.cells), q, ctx)), plain(got))
            if d:
                res.violate("not-current", "%s after %s: %s" % (label, self.tale(done), d))
                return
            d = model(gd, lib3, q, ctx.raw, res)
            if d:
                res.violate("not-the-contents", "%s after %s: %s" % (label, self.tale(done), d))
                return
            t = Q.pick(lib, cells, q)
            if q["op"] == "bb" and t is not None:
                res.evals += 1
                d = bbox(t, got)
                if d:
                    res.violate("bounding-box", "%s after %s: %s" % (label, self.tale(done), d))
                    return
            res.see(label, got)
            res.key(last, label)
            if effective and asked > 1:
                res.case(plan["spec"], [d[0] for d in done], q)
            last = "q." + label
        res.samples.append({"history": [s["e"]["e"] if s["t"] == "e" else s["q"]["w"] + "." + s["q"]["op"] for s in plan["h"]]})

    def length(self, gd, lib, q):
        lib3 = E.rebuild(gd, lib)
        with steps.Steps() as s:
            Q.guarded(gd, lib3, dict(lib3.cells), q, Q.Ctx("g"))
        return s.n

    def tale(self, done):
        return ", ".join(e["e"] for e, out in done if out != "skip") or "no edits"


@contextlib.contextmanager
def null(kind, cell, e):
    yield


class Watch(object):
    """What a filter or flattening has to do."""

    def __init__(self, gd, res, check):
        self.gd, self.res = gd, res
        self.bad = None

    @contextlib.contextmanager
    def __call__(self, kind, cell, e):
        if kind == "tr":
            before = self.seen(cell) if e[1] else None
            yield
            if before is not None:
                self.res.evals += 1
                self.res.count("transformations compared with the model")
                d = self.moved(cell, before, self.seen(cell), e[0])
                if d and not self.bad:
                    self.bad = ("transformation", "of a %s: %s" % (type(cell).__name__, d))
            return
        if kind == "flatten":
            # seen through a fresh copy, so that nothing is evaluated early
            lib = self.gd.GdsLibrary()
            lib.cells["x"] = cell
            ref = E.rebuild(self.gd, lib).cells["x"]
            before = picture(ref, e["args"])
            shape = outline(ref, e["args"])
        else:
            before = contents(cell, kind, e)
        others = [(c, name, list(getattr(c, name))) for c in [cell] for name in ("polygons", "paths", "labels", "references")]
        yield
        self.res.evals += 1
        if kind == "flatten":
            lib = self.gd.GdsLibrary()
            lib.cells["x"] = cell
            flat = E.rebuild(self.gd, lib).cells["x"]
            after = picture(flat, [None] * 3)
            if shape is not None and not self.bad:
                d = outline_diff(shape, outline(flat, [None] * 3))
                if d:
                    self.bad = ("flatten", "paths: %s" % d)
                elif shape[0]:
                    self.res.count("flattened path outlines compared")
            if len(cell.references):
                self.bad = ("flatten", "references left")
            for name, tol in (("polygons", 1e-9), ("labels", 1e-9), ("paths", 1e-9)):
                d = bag_diff(before[name], after[name], tol)
                if d and not self.bad:
                    self.bad = ("flatten", "%s: %s" % (name, d))
            return
        expect, keep = before
        name = {"rmpoly": "polygons", "rmpath": "paths", "rmlabel": "labels"}[kind]
        after = listing(cell, kind)
        d = observe.diff(expect, after) if expect is not None else None
        if d:
            self.bad = ("filter", "%s with %s%s: %s" % (kind, e["pred"], " raising" if e["fail"] is not None else "", d))
            return
        ids = [id(x) for x in getattr(cell, name)]
        if any(i not in set(map(id, keep)) for i in ids) or len(ids) != len(set(ids)) and len(keep) == len(set(map(id, keep))):
            self.bad = ("filter", "%s put other objects in the cell" % kind)
        for c, other, objs in others:
            if other != name and [id(x) for x in getattr(c, other)] != [id(x) for x in objs]:
                self.bad = ("filter", "%s changed the %s" % (kind, other))


    def seen(self, el):
        """What a transformation acts on."""
        if hasattr(el, "gdsii_path"):
            return E.rebuild_element(self.gd, el, None)
        if hasattr(el, "polygons"):
            return [numpy.array(p, dtype=float) for p in el.polygons]
        return numpy.array(el.position if hasattr(el, "anchor") else (0, 0) if el.origin is None else el.origin, dtype=float)

    def moved(self, el, before, after, m):
        if isinstance(before, list):
            return X.polygon_diff([(i, X.put(m, p)) for i, p in enumerate(before)], list(enumerate(after)))
        if isinstance(before, numpy.ndarray):
            d = float(numpy.abs(X.put(m, before) - after).max())
            return "at %s" % (after,) if d > 1e-9 * max(1.0, float(numpy.abs(after).max())) else None
        shapes = []
        for path, n in ((before, m), (after, X.ID)):
            path.max_points = 0
            try:
                polys = path.get_polygons(True)
            except (ValueError, ZeroDivisionError, IndexError, TypeError, OverflowError):
                return None
            out = measure({k: [X.put(n, p) for p in ps] for k, ps in polys.items()}, [None] * 3)
            if out is None:
                return None
            shapes.append((out, max(path.tolerance, path.precision) * (1.0 if path is after else max(1.0, math.hypot(m[0], m[1])))))
        return outline_diff(*shapes)


def model(gd, lib, q, raw, res):
    """Answers about hierarchies against the contents of each cell placed by
    an independent model."""
    op, depth = q["op"], q["d"]
    if q["w"] not in ("cell", "ref") or op not in ("polys", "spec", "one", "sets", "labels", "svg", "area", "areas", "layers", "datatypes", "texttypes", "deps", "depsr", "copy", "dcopy", "tcopy"):
        return None
    cells = dict(lib.cells)
    t = Q.pick(lib, cells, q)
    if t is None:
        return None
    ref = q["w"] == "ref"
    m = X.Model()
    if raw is None and op == "svg":
        return None
    try:
        if raw is None:
            # refused: there is nothing to show, or some path cannot be drawn
            if op in ("polys", "spec", "one", "area", "areas"):
                m.ref_polygons(t) if ref else m.polygons(t)
            return "the query raises"
        if op in ("layers", "datatypes", "texttypes"):
            want = m.layers(t, op)
            d = None if want == set(int(v) for v in raw) else "%s instead of %s" % (sorted(raw), sorted(want))
            res.evals += 1
            return d
        if op in ("deps", "depsr"):
            want = sorted(c.name for c in m.dependencies(t, op == "depsr"))
            got = sorted(c.name for c in raw)
            res.evals += 1
            return None if want == got and set(map(id, raw)) == set(map(id, m.dependencies(t, op == "depsr"))) else "%s instead of %s" % (got, want)
        if op in ("copy", "dcopy", "tcopy"):
            res.evals += 1
            res.count("copies compared with the model")
            return copied(gd, t, raw, q)
        if op == "labels":
            got = [X.shown(l) for l in raw]
            want = m.ref_labels(t, depth) if ref else m.labels(t, depth)
            d = X.label_diff(want, got, q["f"])
        elif op == "sets":
            got = [((int(l), int(dd)), p) for s in raw for p, l, dd in zip(s.polygons, s.layers, s.datatypes)]
            d = X.polygon_diff(m.ref_sets(t, depth) if ref else m.sets(t, depth), got)
        elif op == "svg":
            if ref or q["j"] % 4 == 0 or not raw:
                return None
            if len(set(c.name.replace("#", "_") for c in everything(t))) != len(everything(t)):
                return None
            if set(r.ref_cell.replace("#", "_") for c in everything(t) for r in c.references if not X.real(r)) & set(c.name.replace("#", "_") for c in everything(t)):
                return None     # a missing cell found by the name of another one
            d = X.svg_diff(raw, t, 10, not q["f"], m)
        else:
            want = m.ref_polygons(t, depth) if ref else m.polygons(t, depth)
            if op in ("area", "areas"):
                want = m.ref_polygons(t) if ref else m.polygons(t)
                sums = {}
                for k, p in want:
                    sums[k] = sums.get(k, 0.0) + area(p)
                size = max([1e-3] + [float(numpy.abs(p).max()) for _, p in want if len(p)])
                tol = 1e-8 * size * size * (1 + len(want))
                got = {k: float(v) for k, v in raw.items()} if op == "areas" else {0: float(raw)}
                if op == "area":
                    sums = {0: sum(sums.values())}
                bad = [k for k in set(sums) | set(got) if abs(sums.get(k, 0.0) - got.get(k, 0.0)) > tol]
                d = "area of %s is %r instead of %r" % (bad[0], got.get(bad[0]), sums.get(bad[0])) if bad else None
            elif op == "spec":
                d = X.polygon_diff(want, X.dict_polygons(raw))
            elif op == "one":
                ls = Q.specs(cells)
                k = ls[q["j"] % len(ls)] if ls else (0, 0)
                d = X.polygon_diff([w for w in want if w[0] == k], [(k, p) for p in raw])
            else:
                d = X.polygon_diff([(0, p) for _, p in want], [(0, p) for p in raw])
    except X.TooLarge:
        return None
    except (ValueError, ZeroDivisionError, IndexError, TypeError, OverflowError) as e:
        if op == "svg":
            raise
        return None
    res.evals += 1
    res.count("answers compared with the model")
    return d


def copied(gd, t, new, q):
    """A copy shows what the cell shows, under the transformation asked for."""
    if q["op"] == "tcopy":
        dx, dy, rot, mag, refl = Q.tcopy(q)
    else:
        dx, dy, rot, mag, refl = 0.0, 0.0, 0.0, 1.0, False
    m = X.mul(X.move(dx, dy), X.mul(X.turn(math.degrees(rot)), X.scale(mag, -mag if refl else mag)))
    k = X.Model(skeleton=(t, new))
    d = X.polygon_diff(k.polygons(t, None, m), k.polygons(new))
    if d:
        return "copy: " + d
    d = X.label_diff(k.labels(t, None, m, (math.degrees(rot), mag, refl)), k.labels(new))
    if d:
        return "copy: " + d
    # and its paths
    lib = gd.GdsLibrary()
    one, two = gd.Cell("one", True), gd.Cell("two", True)
    one.paths, two.paths = t.paths, new.paths
    lib.cells.update(one=one, two=two)
    lib = E.rebuild(gd, lib)
    top = gd.Cell("top", True)
    top.references.append(gd.CellReference(lib.cells["one"], (dx, dy), math.degrees(rot), mag, refl))
    shape = outline(top, [None] * 3)
    d = outline_diff(shape, outline(lib.cells["two"], [None] * 3)) if shape is not None else None
    return d and "copy: paths: " + d


def area(p):
    u = p - p[:1]
    v = numpy.roll(u, -1, axis=0)
    return abs(float((u[:, 0] * v[:, 1] - u[:, 1] * v[:, 0]).sum())) / 2


def everything(c):
    return [c] + list(c.get_dependencies(True))


def listing(cell, kind):
    if kind == "rmpoly":
        return [[(observe.arr(p), int(l), int(d)) for p, l, d in zip(x.polygons, x.layers, x.datatypes)] for x in cell.polygons]
    return [observe.element(x) for x in (cell.paths if kind == "rmpath" else cell.labels)]


def contents(cell, kind, e):
    """Expected contents after the filter, and the objects before it."""
    f = E.predicate(e)
    objs = list({"rmpoly": cell.polygons, "rmpath": cell.paths, "rmlabel": cell.labels}[kind])
    before = listing(cell, kind)
    if e["pred"] == "half" and len(objs) != len(set(map(id, objs))):
        return None, objs       # an element twice in the cell and a test that changes its mind
    try:
        if kind == "rmpoly":
            out = [(x, [(observe.arr(p), int(l), int(d)) for p, l, d in zip(x.polygons, x.layers, x.datatypes) if not f(p, l, d)])
                   for x in objs]
            res = [k for x, k in out if k]
        else:
            res = [observe.element(x) for x in objs if not f(x)]
    except RuntimeError:
        return before, objs
    return res, objs


def picture(cell, args):
    """What flattening has to keep."""
    l0, d0, t0 = args
    m = X.Model()
    polys = [(k[0] if l0 is None else l0, k[1] if d0 is None else d0, p.ravel().tolist()) for k, p in m.sets(cell)]
    labels = [(x[0], x[1] if l0 is None else l0, x[2] if t0 is None else t0, x[3], x[4].tolist()) for x in m.labels(cell)]
    paths = []
    for x in cell.get_paths():
        for l, d in zip(x.layers, x.datatypes):
            paths.append((l if l0 is None else l0, d if d0 is None else d0, [float(x.n)]))
    return {"polygons": polys, "labels": labels, "paths": paths}


def outline(cell, args):
    """Bounding box, area and perimeter of the polygons of the paths of each
    layer and datatype, with the tolerance they are known to; None if they
    cannot be calculated.  Consumes the cell."""
    seen = {}

    def strip(c):
        """Keeps the paths; returns the tolerance of their outlines."""
        if id(c) in seen:
            return seen[id(c)]
        c.polygons, c.labels = [], []
        # widths that do not follow the magnification are out of scope here
        c.paths = [p for p in c.paths if p.width_transform or not p.gdsii_path]
        for p in c.paths:
            p.max_points = 0    # pieces are C15's
        tol = max([0.0] + [max(p.tolerance, p.precision) for p in c.paths])
        count = len(c.paths)
        for r in c.references:
            if hasattr(r.ref_cell, "references"):
                t, n = strip(r.ref_cell)
                tol = max(tol, t * (1.0 if r.magnification is None else max(1.0, abs(r.magnification))))
                count += n
        seen[id(c)] = tol, count
        return tol, count
    tol, count = strip(cell)
    if count == 0:
        return {}, tol
    try:
        polys = cell.get_polygons(True)
    except (ValueError, ZeroDivisionError, IndexError, TypeError, OverflowError):
        return None
    out = measure(polys, args)
    return None if out is None else (out, tol)


def measure(polys, args):
    """Bounding box, area, perimeter and number of polygons of each layer."""
    out = {}
    for (l, d), ps in polys.items():
        key = (l if args[0] is None else args[0], d if args[1] is None else args[1])
        x = out.setdefault(key, [None, 0.0, 0.0, 0])
        for p in ps:
            if not numpy.isfinite(p).all():
                return None
            bb = numpy.array((p.min(axis=0), p.max(axis=0)))
            x[0] = bb if x[0] is None else numpy.array((numpy.minimum(bb[0], x[0][0]), numpy.maximum(bb[1], x[0][1])))
            q = numpy.roll(p, -1, axis=0)
            # relative to a vertex: areas far from the origin
            u, v = p - p[0], q - p[0]
            x[1] += abs(float((u[:, 0] * v[:, 1] - u[:, 1] * v[:, 0]).sum())) / 2
            x[2] += float(numpy.hypot(*(q - p).T).sum())
            x[3] += 1
    return out


def outline_diff(a, b):
    if b is None:
        return None
    (a, tol), (b, tol2) = a, b
    tol = 4 * (tol + tol2)
    if sorted(a) != sorted(b):
        return "layers %s became %s" % (sorted(a), sorted(b))
    for k in a:
        if a[k][0] is None or b[k][0] is None:
            # fracturing drops what has no area
            if max(a[k][1], b[k][1]) > tol * max(a[k][2], b[k][2]):
                return "%s appeared or disappeared" % (k,)
            continue
        scale = float(numpy.abs(a[k][0]).max())
        d = float(numpy.abs(a[k][0] - b[k][0]).max())
        if d > tol + 1e-9 * scale:
            return "bounding box in %s became %s from %s (tolerance %g)" % (k, b[k][0].tolist(), a[k][0].tolist(), tol)
        if a[k][3] == b[k][3]:
            d = abs(a[k][1] - b[k][1])
            if d > tol * max(a[k][2], b[k][2]) + 1e-9 * scale * scale:
                return "area in %s became %r from %r" % (k, b[k][1], a[k][1])
    return None


def bag_diff(a, b, tol):
    if len(a) != len(b):
        return "%d instead of %d" % (len(b), len(a))
    left = list(b)
    for x in a:
        for i, y in enumerate(left):
            if x[:-1] == y[:-1] and len(x[-1]) == len(y[-1]) and all(abs(u - v) <= tol * max(1.0, abs(u)) for u, v in zip(x[-1], y[-1])):
                del left[i]
                break
        else:
            return "missing %s" % (observe.sh(x),)
    return None


def plain(v):
    """Without the class of polygon elements."""
    if isinstance(v, tuple):
        if len(v) > 2 and v[0] == "polygons" and isinstance(v[1], str):
            return ("polygons", "*") + tuple(plain(x) for x in v[2:])
        if len(v) == 3 and v[0] == "arr" and v[1] == (2,):
            return plain(v[2])
        return tuple(plain(x) for x in v)
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def bbox(t, got):
    """The bounding box is that of the polygons."""
    try:
        polys = t.get_polygons()
    except Exception as e:
        return None if got == ("raised", type(e).__name__) else "polygons raise %s" % type(e).__name__
    if not polys:
        return None if got is None else "bounding box %s of nothing" % (got,)
    if got is None:
        return "no bounding box for %d polygons" % len(polys)
    a = numpy.concatenate(polys)
    want = numpy.array((a.min(axis=0), a.max(axis=0)))
    if isinstance(got, tuple) and got[0] == "arr":
        have = numpy.array(got[2]).reshape(2, 2)
        scale = max(1e-3, float(numpy.abs(want).max()))
        if numpy.abs(have - want).max() <= 1e-9 * scale + 1e-12:
            return None
    return "%s instead of %s" % (observe.sh(got), want.tolist())


CHECK = C11()
