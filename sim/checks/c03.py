"""C03: a file cut short never yields fabricated content."""
from .. import boot, refgds, simfs, spec as S, util
from ..runner import Check, clone, generic_shrinks
from . import c02

R = refgds


class C03(Check):
    id = "C03"
    title = "truncated files"
    quick = (6000, 45.0)
    thorough = (60000, 700.0)
    real = "gdspy readers and exporters, io buffering layers"
    stub = "disk (simulated raw files; a crash keeps what reached it), clock"
    key_measure = "distinct (kind of record cut, offset inside it, reader, outcome)"
    case_measure = "a case is one reader on one file cut at one byte; non-trivial if the cut is strictly inside the file; distinct by cut bytes and reader"

    def plan(self, rng):
        o = S.Opt(hugearr=0.0, big=0.003, far=0.01, cells=(1, 4), els=(0, 4))
        p = {"spec": S.gen(rng, o), "ts": util.rand_ts(rng), "crash": rng.random() < 0.3, "bufsize": rng.choice([None, 16, 64, 512, 4096])}
        p["all"] = rng.random() < 0.1
        # positions: fraction of the file, or (record index fraction, byte in record)
        p["cuts"] = [[rng.random(), rng.choice([None, None, 0, 1, 2, 3, 4, 5, 6, 8, 12, 20, 27, -1, -2, -4])] for _ in range(40)]
        p["src"] = rng.choice(util.PATHKINDS + ["stream", "file"])
        p["units"] = rng.choice(["skip", "import", "convert"])
        p["short"] = rng.choice([0, 0, 0.5])
        p["seed"] = rng.getrandbits(32)
        p["lim"] = rng.choice([60, 120])
        return p

    def shrinks(self, plan):
        for q in generic_shrinks(plan, [("cuts",)] + util.spec_lists()):
            S.fix(q["spec"])
            yield q
        if plan["all"]:
            for i in range(0, 4000, 7):
                pass
        yield from util.simplify_elements(plan)
        for k, v in (("src", "str"), ("short", 0), ("units", "skip"), ("crash", False)):
            if plan[k] != v:
                q = clone(plan)
                q[k] = v
                yield q

    def run(self, plan, res):
        gd = boot.gdspy
        fs = simfs.SimFS()
        simfs.current = fs
        path = simfs.ROOT + "/f.gds"
        lib, cells = S.build(gd, plan["spec"])
        ts = util.mkts(plan["ts"])
        lib.write_gds(path, timestamp=ts)
        full = fs.get(path)
        dec = R.decode(full)
        res.see(full)
        recs = [(p, s) for p, s, rt, d, b in R.records(full)]
        n = len(full)
        cuts = []
        if plan["all"] and n < 3000:
            cuts = list(range(n))
        else:
            for x, inner in plan["cuts"]:
                if inner is None:
                    c = int(x * n)
                else:
                    p, s = recs[int(x * len(recs))]
                    c = p + inner if inner >= 0 else p + s + inner
                if 0 <= c < n and c not in cuts:
                    cuts.append(c)
        spans = R.stamp_spans(full)
        hashes = None
        fs2 = simfs.SimFS()
        for c in cuts:
            if plan["crash"]:
                data = self.crash(gd, plan, lib, c, ts)
                res.add({"writer-crash": 1})
                if not full.startswith(data):
                    res.violate("crash-order", "a crashed export left %d bytes that are not a leading part of the complete document" % len(data))
                    return
            else:
                data = full[:c]
                res.add({"truncation": 1})
            self.one(gd, plan, full, dec, data, spans, lib, recs, res)
            if res.violations:
                res.violations[-1][1] = "cut at %d of %d: %s" % (len(data), n, res.violations[-1][1])
                return
        res.samples.append({"bytes": n, "cuts": cuts[:10], "src": plan["src"]})

    def crash(self, gd, plan, lib, at, ts):
        fs = simfs.SimFS(None, [{"op": "killb", "at": at}], bufsize=plan["bufsize"])
        simfs.current = fs
        p = simfs.ROOT + "/crash.gds"
        try:
            lib.write_gds(p, timestamp=ts)
        except simfs.SimKill:
            pass
        fs.dead = True
        return fs.get(p) or b""

    def source(self, plan, data, i):
        fs = simfs.SimFS(util.rng_from(plan["seed"] + i), (), plan["short"], 0, None)
        fs.read_budget = 200 + 60 * len(data)
        simfs.current = fs
        p = simfs.ROOT + "/cut.gds"
        fs.put(p, data)
        if plan["src"] == "stream":
            return fs, simfs.SourceStream(data, budget=200 + 8 * len(data))
        if plan["src"] == "file":
            return fs, open(p, "rb")
        return fs, util.as_path(plan["src"], p)

    def one(self, gd, plan, full, dec, data, spans, lib0, recs, res):
        n = len(data)
        where = [i for i, (p, s) in enumerate(recs) if p <= n < p + s]
        at = (full[recs[where[0]][0] + 2], n - recs[where[0]][0]) if where else ("end", 0)

        def note(reader, outcome):
            res.evals += 1
            res.key(at, reader, outcome)
            if n and n < len(full):
                res.case(data, reader)
        # library import
        fs, src = self.source(plan, data, 1)
        lib = gd.GdsLibrary("fresh", unit=lib0.unit, precision=lib0.precision)
        out = None
        try:
            lib.read_gds(src, units=plan["units"])
        except Exception as e:
            out = e
        note("read", type(out).__name__)
        if plan["units"] == "convert":
            factor = dec["db_meter"] / lib0.unit
        else:
            factor = dec["db_user"]
        byname = {c["name"]: c for c in dec["cells"]}
        if lib.name not in ("fresh", dec["name"]):
            res.violate("fabricated-name", repr(lib.name))
        if plan["units"] == "import" and lib.cells and out is None:
            if not S.fclose(lib.unit, dec["unit"], 1e-13) or not S.fclose(lib.precision, dec["precision"], 1e-13):
                res.violate("fabricated-units", (lib.unit, lib.precision))
        for name, cell in lib.cells.items():
            if name not in byname or cell.name != name:
                res.violate("fabricated-cell", "%r (%r) was never written" % (name, cell.name))
                return
            k = len(cell.polygons) + len(cell.paths) + len(cell.labels) + len(cell.references)
            els = [e for e in byname[name]["els"]]
            if k > len(els):
                res.violate("fabricated-content", "cell %r has %d elements, %d were written" % (name, k, len(els)))
                return
            saved = dict(lib.cells)
            if out is None and n < len(full):
                # unresolved references are allowed in an incomplete library
                for r in cell.references:
                    if isinstance(r.ref_cell, str) and r.ref_cell in lib.cells:
                        r.ref_cell = lib.cells[r.ref_cell]
            d = c02.CHECK.check_cell(gd, lib, cell, els[:k], factor)
            if d:
                res.violate("fabricated-content", "cell %r, first %d elements: %s" % (name, k, d))
                return
        # units
        fs, src = self.source(plan, data, 2)
        try:
            u = gd.get_gds_units(src)
        except Exception as e:
            note("units", type(e).__name__)
        else:
            note("units", "ok" if u[0] is not None else "none")
            if u[0] is not None or u[1] is not None:
                if not S.fclose(u[0], dec["unit"], 1e-13) or not S.fclose(u[1], dec["precision"], 1e-13):
                    res.violate("fabricated-units", "get_gds_units: %r instead of %r" % (u, (dec["unit"], dec["precision"])))
        # binary cells
        fs, src = self.source(plan, data, 3)
        try:
            b = gd.get_binary_cells(src)
        except Exception as e:
            note("binary", type(e).__name__)
        else:
            note("binary", len(b))
            for k, v in b.items():
                if k not in byname or bytes(v) != byname[k]["raw"]:
                    res.violate("fabricated-binary-cell", "%r: %d bytes, %r written" % (k, len(v), byname.get(k) and len(byname[k]["raw"])))
                    return
        # hash
        fs = simfs.SimFS(util.rng_from(plan["seed"] + 4), (), plan["short"])
        fs.read_budget = 200 + 60 * n
        simfs.current = fs
        p = simfs.ROOT + "/h.gds"
        fs.put(p, full)
        hfull = gd.gdsii_hash(p)
        fs.reads = 0
        fs.put(p, data)
        try:
            h = gd.gdsii_hash(p)
        except Exception as e:
            note("hash", type(e).__name__)
        else:
            note("hash", "ok")
            last = max([c["span"][1] for c in dec["cells"]] + [0])
            if h == hfull and n < last:
                res.violate("hash-accepts-cut", "the hash of the cut file equals the one of the complete file, whose cells end at %d" % last)
        # timestamps
        fs = simfs.SimFS(util.rng_from(plan["seed"] + 5), (), plan["short"], 0, plan["bufsize"])
        fs.read_budget = 200 + 60 * n
        simfs.current = fs
        fs.put(p, data)
        try:
            gd.set_gdsii_timestamp(p, util.mkts([2031, 12, 30, 23, 58, 59]))
        except Exception as e:
            note("stamp", type(e).__name__)
        else:
            note("stamp", "ok")
        after = fs.get(p)
        if len(after) != n:
            res.violate("stamp-changes-length", "%d -> %d bytes" % (n, len(after)))
        else:
            a, b = bytearray(data), bytearray(after)
            for s, e in spans:
                if s < n:
                    a[s:e] = b"\0" * len(a[s:e])
                    b[s:e] = b"\0" * len(b[s:e])
            if a != b:
                i = [i for i in range(n) if a[i] != b[i]][0]
                res.violate("stamp-changes-contents", "byte %d" % i)


CHECK = C03()
