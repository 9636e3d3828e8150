"""C02: export -> restart -> import recovers the layout."""
import math

import numpy

from .. import boot, refgds, simfs, spec as S, util
from ..runner import Check, clone, generic_shrinks

R = refgds


def gen_foreign(rng, o):
    """A library as another tool might write it (decoded form, integers)."""
    s = S.gen(rng, o)
    opts = []
    for c in s["cells"]:
        row = []
        for _ in range(40):
            row.append({"elflags": rng.choice([None] * 5 + [0, 1]), "plex": rng.choice([None] * 8 + [17]),
                        "chunk": rng.choice([8000] * 4 + [1, 2, 3, 100]), "omit": rng.random() < 0.3,
                        "force": rng.random() < 0.2, "textwidth": rng.choice([None, None, 10])})
        opts.append(row)
    return s, opts


class C02(Check):
    id = "C02"
    title = "export/import round trip across restarts"
    quick = (25000, 60.0)
    thorough = (400000, 780.0)
    real = "gdspy (Python and extension), io buffering layers"
    stub = "disk (simulated raw files), clock"
    key_measure = "distinct (writer route, element kind, attribute presence) combinations plus read chunking sequences"
    case_measure = "a case is one exported layout taken through decode, import under options and re-export; non-trivial if it has at least one element; distinct by the bytes written"
    assumptions = ["coordinates representable in the format (32-bit database units)", "names and strings are ASCII"]

    def plan(self, rng):
        o = S.Opt()
        if rng.random() < 0.5:
            o.big = 0.0
        if rng.random() < 0.3:
            o.cells = (2, 9)
        mode = "foreign" if rng.random() < 0.15 else "own"
        p = {"mode": mode}
        if mode == "foreign":
            o.kinds = ["poly", "poly", "flexg", "label", "sref", "aref"]
            o.curves = False
            o.frac = 0
            o.big = 0
            p["spec"], p["opts"] = gen_foreign(rng, o)
            p["extra"] = [rng.choice(["node", "box", "none"]) for _ in range(3)]
            p["order"] = rng.random()
        else:
            p["spec"] = S.gen(rng, o)
        names = [c["name"] for c in p["spec"]["cells"]]
        p["route"] = rng.choice(["lib", "lib", "cells", "names", "writer", "binary", "wbinary", "mixed"])
        p["dest"] = rng.choice(util.PATHKINDS + ["stream"])
        p["perm"] = rng.random()
        p["ts"] = util.rand_ts(rng)
        p["io"] = {"seed": rng.getrandbits(32), "short": rng.choice([0, 0.3, 0.9]), "eintr": rng.choice([0, 0.1]),
                   "buf": rng.choice([None, 16, 61, 512])}
        rd = {"src": rng.choice(util.PATHKINDS + ["stream"]), "units": rng.choice(["skip", "import", "import", "convert"]),
              "ctor": rng.random() < 0.3, "lib": rng.choice([None, [1e-6, 1e-9], [1e-3, 1e-6], [1e-9, 1e-12]]), "default": rng.random() < 0.2}
        if rng.random() < 0.3:
            rd["rename"] = {n: "R%d" % i for i, n in enumerate(names) if rng.random() < 0.4}
            if rng.random() < 0.3:
                rd["rename"]["MISSING0"] = "FOUND"
        if rng.random() < 0.25:
            rd["template"] = rng.choice(["{name}_x", "pre{name}", "{name}{name}", "{name!s}"])
        ls = [0, 1, 2, 3, 10, 63, 255, 256, 1000, 32767]
        for kind in ("layers", "datatypes", "texttypes"):
            if rng.random() < 0.25:
                rd[kind] = [[l, rng.choice([0, 4, 5, 99, 1])] for l in ls if rng.random() < 0.5]
        if rng.random() < 0.2:
            rd["pre"] = ["ZZpre", "MISSING0"]
        if rng.random() < 0.15:
            rd["twice"] = True
        p["read"] = rd
        p["gens"] = rng.choice([1, 1, 1, 2, 3])
        return p

    def shrinks(self, plan):
        if plan["mode"] == "foreign":
            lists = [("spec", "cells"), ("spec", "cells", "*", "els")]
        else:
            lists = util.spec_lists()
        for q in generic_shrinks(plan, lists):
            S.fix(q["spec"])
            yield q
        yield from util.simplify_elements(plan)
        for k, v in (("route", "lib"), ("dest", "str"), ("gens", 1)):
            if plan[k] != v:
                q = clone(plan)
                q[k] = v
                yield q
        for k in ("rename", "template", "layers", "datatypes", "texttypes", "pre", "twice"):
            if k in plan["read"]:
                q = clone(plan)
                del q["read"][k]
                yield q
        if plan["io"]["short"] or plan["io"]["eintr"]:
            q = clone(plan)
            q["io"]["short"] = q["io"]["eintr"] = 0
            yield q

    # -- execution -----------------------------------------------------------
    def run(self, plan, res):
        gd = boot.gdspy
        io_ = plan["io"]
        fs = simfs.SimFS(util.rng_from(io_["seed"]), (), io_["short"], io_["eintr"], io_["buf"])
        simfs.current = fs
        path = simfs.ROOT + "/out.gds"
        spec = plan["spec"]
        g = S.grid(spec)
        if plan["mode"] == "foreign":
            data = self.foreign(plan)
            fs.put(path, data)
            dec = R.decode(data)
            for c in dec["cells"]:
                c["els"] = [(("B",) + e[1:] if e[0] == "X" else e) for e in c["els"] if e[0] != "N"]
        else:
            model = {c["name"]: [m for e in c["els"] for m in S.model_elements(gd, e, g)] for c in spec["cells"]}
            self.export(gd, plan, fs, path)
            data = fs.get(path)
            try:
                dec = R.decode(data)
            except R.FormatError as e:
                res.violate("malformed-export", e)
                return
            if dec["name"] != spec["name"]:
                res.violate("library-name", (dec["name"], spec["name"]))
            if not S.fclose(dec["unit"], spec["unit"], 1e-13) or not S.fclose(dec["precision"], spec["precision"], 1e-13):
                res.violate("units", (dec["unit"], dec["precision"], spec["unit"], spec["precision"]))
            names = [c["name"] for c in dec["cells"]]
            if sorted(names) != sorted(model):
                res.violate("cells", (names, sorted(model)))
                return
            for c in dec["cells"]:
                r = S.compare(model[c["name"]], c["els"])
                if r:
                    res.violate("exported-content", "cell %r: %s" % (c["name"], r))
                    return
        res.evals += 1
        res.see(data)
        n = sum(len(c["els"]) for c in dec["cells"])
        if n:
            res.case(data)
        for c in dec["cells"]:
            for e in c["els"]:
                res.count("elements:" + e[0])
                res.key(plan["route"], e[0], [x is None or x is False for x in e[3:7]], len(e[3]) > 8000 if e[0] == "B" else 0)
        res.samples.append({"route": plan["route"], "read": plan["read"], "cells": [[c["name"], [e["k"] for e in c["els"]]] for c in spec["cells"]][:4]})
        self.check_parts(gd, plan, fs, path, dec, res)
        if res.violations:
            return
        self.check_import(gd, plan, fs, path, dec, res)
        res.add(fs.fired)
        res.key("io", fs.reads, fs.rawops)

    def foreign(self, plan):
        spec = plan["spec"]
        lib = {"name": spec["name"], "db_user": spec["precision"] / spec["unit"], "db_meter": spec["precision"],
               "stamps": ((2001, 1, 1, 1, 1, 1), (2002, 2, 2, 2, 2, 2)), "cells": []}
        gd = boot.gdspy
        g = S.grid(spec)
        for i, c in enumerate(spec["cells"]):
            els = []
            for j, e in enumerate(c["els"]):
                for m in S.model_elements(gd, e, g):
                    m = list(m)
                    for q, v in enumerate(m):
                        if isinstance(v, list):
                            m[q] = tuple((S.rnd(x), S.rnd(y)) for x, y in v)
                    els.append(tuple(m))
                ex = plan["extra"][(i + j) % len(plan["extra"])]
                if ex == "node":
                    els.append(("N", 5, 6, ((1, 2), (3, 4)), ((9, "node property"),) if (i + j) % 2 else ()))
                elif ex == "box":
                    els.append(("X", 7, 8, ((0, 0), (10, 0), (10, 10), (0, 10)), ()))
            lib["cells"].append({"name": c["name"], "stamps": ((1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1)), "els": els})
        if plan["order"] < 0.5:
            lib["cells"].reverse()
        opts = plan["opts"]
        return R.encode(lib, lambda i, j: opts[i % len(opts)][j % 40])

    def export(self, gd, plan, fs, path):
        lib, cells = S.build(gd, plan["spec"])
        ts = util.mkts(plan["ts"])
        names = list(cells)
        util.rng_from(int(plan["perm"] * 1e9)).shuffle(names)
        route = plan["route"]

        def dest():
            if plan["dest"] == "stream":
                return open(path, "wb")
            return util.as_path(plan["dest"], path)

        def done(d):
            if plan["dest"] == "stream":
                d.close()

        d = None
        half = names[:len(names) // 2]
        rest = [n for n in names if n not in half]
        aux = simfs.ROOT + "/aux.gds"
        if route in ("binary", "wbinary", "mixed"):
            lib.write_gds(aux, cells=half, timestamp=ts)
            bins = gd.get_binary_cells(aux)
            bins = [bins[n] for n in half]
        d = dest()
        if route == "lib":
            lib.write_gds(d, timestamp=ts)
        elif route == "cells":
            lib.write_gds(d, cells=[cells[n] for n in names], timestamp=ts)
        elif route == "names":
            lib.write_gds(d, cells=iter(names), timestamp=ts)
        elif route == "binary":
            lib.write_gds(d, cells=rest, timestamp=ts, binary_cells=iter(bins))
        elif route == "mixed":
            lib.write_gds(d, cells=[cells[n] if i % 2 else n for i, n in enumerate(rest)], timestamp=ts, binary_cells=bins)
        else:
            w = gd.GdsWriter(d, name=lib.name, unit=lib.unit, precision=lib.precision, timestamp=ts)
            if route == "writer":
                for n in names:
                    w.write_cell(cells[n], timestamp=ts)
            else:
                for i, n in enumerate(rest):
                    w.write_cell(cells[n], ts)
                    if i < len(bins):
                        w.write_binary_cells([bins[i]])
                w.write_binary_cells(bins[len(rest):])
            w.close()
        done(d)

    def check_parts(self, gd, plan, fs, path, dec, res):
        u = gd.get_gds_units(util.as_path(plan["read"]["src"], path) if plan["read"]["src"] != "stream" else open(path, "rb"))
        if not S.fclose(u[0], dec["unit"], 1e-14) or not S.fclose(u[1], dec["precision"], 1e-14):
            res.violate("get-units", (u, dec["unit"], dec["precision"]))
        b = gd.get_binary_cells(util.as_path(plan["read"]["src"], path) if plan["read"]["src"] != "stream" else open(path, "rb"))
        want = {c["name"]: c["raw"] for c in dec["cells"]}
        if {k: bytes(v) for k, v in b.items()} != want:
            res.violate("binary-cells", (sorted(b), sorted(want)))

    def check_import(self, gd, plan, fs, path, dec, res):
        rd = plan["read"]
        kw = {}
        mode = rd["units"]
        if rd["default"]:
            mode = "skip"
        else:
            kw["units"] = mode
        for k in ("layers", "datatypes", "texttypes"):
            if k in rd:
                kw[k] = dict((a, b) for a, b in rd[k])
        if "rename" in rd:
            kw["rename"] = dict(rd["rename"])
        if "template" in rd:
            kw["rename_template"] = rd["template"]

        def mapped(n):
            if n in rd.get("rename", {}):
                return rd["rename"][n]
            return rd.get("template", "{name}").format(name=n)
        newnames = [mapped(c["name"]) for c in dec["cells"]]
        pre = [n for n in rd.get("pre", ()) if n not in newnames]
        if len(set(newnames)) != len(newnames):
            return
        libargs = {}
        if rd["lib"]:
            libargs = {"unit": rd["lib"][0], "precision": rd["lib"][1]}
        src = util.as_path(rd["src"], path) if rd["src"] != "stream" else open(path, "rb")
        precells = {}
        if rd["ctor"] and not pre:
            lib = gd.GdsLibrary("fresh", infile=src, **dict(libargs, **kw))
        else:
            lib = gd.GdsLibrary("fresh", **libargs)
            for n in pre:
                precells[n] = gd.Cell(n)
                lib.add(precells[n])
            r = lib.read_gds(src, **kw)
            if r is not lib:
                res.violate("read-result", repr(r))
        base = libargs.get("unit", 1e-6), libargs.get("precision", 1e-9)
        if lib.name != dec["name"]:
            res.violate("import-name", (lib.name, dec["name"]))
        if mode == "import":
            want = dec["unit"], dec["precision"]
            factor = dec["db_user"]
        elif mode == "skip":
            want = base
            factor = dec["db_user"]
        else:
            want = base
            factor = dec["db_meter"] / base[0]
        if not S.fclose(lib.unit, want[0], 1e-13) or not S.fclose(lib.precision, want[1], 1e-13):
            res.violate("import-units", ((lib.unit, lib.precision), want))
        if sorted(lib.cells) != sorted(newnames + pre):
            res.violate("import-cells", (sorted(lib.cells), sorted(newnames + pre)))
            return
        for n, c in precells.items():
            if lib.cells[n] is not c or c.polygons or c.references or c.labels or c.paths:
                res.violate("import-preexisting", n)
        lm = dict(rd.get("layers", ()))
        dm = dict(rd.get("datatypes", ()))
        tm = dict(rd.get("texttypes", ()))
        expect = {}
        for c in dec["cells"]:
            out = []
            for e in c["els"]:
                e = list(e)
                if e[0] in "BP":
                    e[1] = lm.get(e[1], e[1])
                    e[2] = dm.get(e[2], e[2])
                elif e[0] == "T":
                    e[1] = lm.get(e[1], e[1])
                    e[2] = tm.get(e[2], e[2])
                else:
                    e[1] = mapped(e[1])
                out.append(tuple(e))
            expect[mapped(c["name"])] = out
        for n, els in expect.items():
            cell = lib.cells[n]
            if cell.name != n:
                res.violate("import-cell-name", (cell.name, n))
            r = self.check_cell(gd, lib, cell, els, factor)
            if r:
                res.violate("imported-content", "cell %r: %s" % (n, r))
                return
        res.evals += 1
        # further generations
        scale = factor * lib.unit / lib.precision
        top = max([max(abs(c) for c in p) for els in expect.values() for e in els for v in e
                   if isinstance(v, tuple) and v and isinstance(v[0], tuple) and e[0] in "BPA" and len(v[0]) == 2 and not isinstance(v[0][1], str) for p in v] + [1])
        if top * scale > 2 ** 30 or scale < 0.999:
            return
        cur = lib
        for gen in range(plan["gens"]):
            p2 = simfs.ROOT + "/gen%d.gds" % gen
            cur.write_gds(p2, timestamp=util.mkts(plan["ts"]))
            data = fs.get(p2)
            try:
                d2 = R.decode(data)
            except R.FormatError as e:
                res.violate("malformed-reexport", e)
                return
            got = {c["name"]: c["els"] for c in d2["cells"]}
            for n in expect:
                m = [scaled(e, scale) for e in expect[n]]
                exact = abs(scale - 1) < 1e-9
                r = S.compare(m, got.get(n, []), 1e-3 if exact and gen == 0 else 0.51 * (gen + 1), (1.5 * max(1, scale) + 0.51) * (gen + 1))
                if r:
                    res.violate("reexported-content", "generation %d cell %r: %s" % (gen + 2, n, r))
                    return
            res.evals += 1
            if gen + 1 < plan["gens"]:
                cur = gd.GdsLibrary(infile=p2, units="import")
        if rd.get("twice"):
            # the same options once more, into a second library
            lib2 = gd.GdsLibrary("fresh2", **libargs)
            lib2.read_gds(path, **kw)
            for n, els in expect.items():
                r = self.check_cell(gd, lib2, lib2.cells[n], els, factor)
                if r:
                    res.violate("imported-content", "second import, cell %r: %s" % (n, r))
                    return

    def check_cell(self, gd, lib, cell, els, f):
        polys = [e for e in els if e[0] == "B"]
        paths = [e for e in els if e[0] == "P"]
        labels = [e for e in els if e[0] == "T"]
        refs = [e for e in els if e[0] in "SA"]
        if (len(cell.polygons), len(cell.paths), len(cell.labels), len(cell.references)) != (len(polys), len(paths), len(labels), len(refs)):
            return "element counts %r instead of %r" % (
                (len(cell.polygons), len(cell.paths), len(cell.labels), len(cell.references)), (len(polys), len(paths), len(labels), len(refs)))
        for o, e in zip(cell.polygons, polys):
            if not isinstance(o, gd.PolygonSet) or len(o.polygons) != 1:
                return "polygon object"
            if list(o.layers) != [e[1]] or list(o.datatypes) != [e[2]]:
                return "polygon layer/datatype %r %r instead of %r" % (o.layers, o.datatypes, e[1:3])
            if not same(o.polygons[0], e[3], f):
                return "polygon points: %s instead of %s" % (S.short(o.polygons[0]), S.short([(a * f, b * f) for a, b in e[3]]))
            if props(o) != e[4]:
                return "polygon properties %r instead of %r" % (props(o), e[4])
        for o, e in zip(cell.paths, paths):
            if o.n != 1 or list(o.layers) != [e[1]] or list(o.datatypes) != [e[2]]:
                return "path layer/datatype"
            if not o.gdsii_path:
                return "path is not a gdsii path"
            w = abs(e[3]) * f
            if not all(S.fclose(x, w, 1e-12) for x in numpy.array(o.widths).ravel()):
                return "path width %r instead of %r" % (o.widths, w)
            if e[3] != 0 and bool(o.width_transform) != (e[3] > 0):
                return "path width scaling flag"
            if numpy.array(o.offsets).any():
                return "path offset"
            end = o.ends[0]
            if isinstance(e[4], tuple):
                if isinstance(end, str) or not all(S.fclose(a, b * f, 1e-12) for a, b in zip(end, e[4])):
                    return "path ends %r instead of %r" % (end, e[4])
            elif end != {0: "flush", 1: "round", 2: "extended"}[e[4]]:
                return "path ends %r instead of %r" % (end, e[4])
            if not same(o.points, e[5], f):
                return "path points: %s instead of %s" % (S.short(o.points), S.short(e[5]))
            if props(o) != e[6]:
                return "path properties %r instead of %r" % (props(o), e[6])
        for o, e in zip(cell.labels, labels):
            if (o.layer, o.texttype) != e[1:3]:
                return "label layer/texttype %r" % ((o.layer, o.texttype, e[1:3]),)
            if o.anchor != e[3]:
                return "label anchor %r instead of %r" % (o.anchor, e[3])
            if bool(o.x_reflection) != e[4] or not S.fclose(o.magnification, e[5]) or not S.fclose(o.rotation, e[6]):
                return "label transformation %r" % ((o.x_reflection, o.magnification, o.rotation, e[4:7]),)
            if not same([o.position], [e[7]], f):
                return "label position"
            if o.text != e[8]:
                return "label text %r instead of %r" % (o.text, e[8])
            if props(o) != e[9]:
                return "label properties %r instead of %r" % (props(o), e[9])
        for o, e in zip(cell.references, refs):
            name = e[1]
            if name in lib.cells:
                if o.ref_cell is not lib.cells[name]:
                    return "reference to %r is %r, not the library's cell" % (name, o.ref_cell)
            elif o.ref_cell != name:
                return "reference to %r is %r" % (name, o.ref_cell)
            if isinstance(o, gd.CellArray) != (e[0] == "A"):
                return "reference kind"
            if bool(o.x_reflection) != e[2] or not S.fclose(o.magnification, e[3]) or not S.fclose(o.rotation, e[4]):
                return "reference transformation %r" % ((o.x_reflection, o.magnification, o.rotation, e[2:5]),)
            if e[0] == "S":
                if not same([o.origin], [e[5]], f):
                    return "reference origin %r instead of %r" % (o.origin, e[5])
                if props(o) != e[6]:
                    return "reference properties %r instead of %r" % (props(o), e[6])
            else:
                if (o.columns, o.rows) != e[5:7]:
                    return "array size"
                if not same([o.origin], [e[7][0]], f):
                    return "array origin"
                # corners implied by the object against the ones in the file
                ux, uy = o.columns * o.spacing[0], 0.0
                vx, vy = 0.0, o.rows * o.spacing[1] * (-1 if e[2] else 1)
                t = math.radians(e[4] or 0)
                c, s = math.cos(t), math.sin(t)
                (x0, y0), (x1, y1), (x2, y2) = e[7]
                got = [(ux * c - uy * s) / f, (ux * s + uy * c) / f, (vx * c - vy * s) / f, (vx * s + vy * c) / f]
                want = [x1 - x0, y1 - y0, x2 - x0, y2 - y0]
                if any(abs(a - b) > 1.5 + 1e-9 * abs(b) for a, b in zip(got, want)):
                    return "array grid: %r instead of %r" % (got, want)
                if props(o) != e[8]:
                    return "array properties %r instead of %r" % (props(o), e[8])
        return None


def scaled(e, s):
    e = list(e)
    if e[0] == "B":
        e[3] = [(a * s, b * s) for a, b in e[3]]
    elif e[0] == "P":
        e[3] = e[3] * s
        if isinstance(e[4], tuple):
            e[4] = (e[4][0] * s, e[4][1] * s)
        e[5] = S.dedupe([(a * s, b * s) for a, b in e[5]])
    elif e[0] == "T":
        e[7] = (e[7][0] * s, e[7][1] * s)
    elif e[0] == "S":
        e[5] = (e[5][0] * s, e[5][1] * s)
    else:
        e[7] = [(a * s, b * s) for a, b in e[7]]
    return tuple(e)


def same(pts, want, f):
    pts = numpy.array(pts, dtype=float).reshape(-1, 2)
    want = numpy.array(want, dtype=float) * f
    if pts.shape != want.shape:
        return False
    return bool(numpy.all(numpy.abs(pts - want) <= 1e-12 * numpy.abs(want) + 1e-300))


def props(o):
    return tuple(sorted((int(a), v) for a, v in (o.properties or {}).items()))


CHECK = C02()
