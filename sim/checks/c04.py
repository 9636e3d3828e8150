"""C04: damaged input is contained."""
import struct

from .. import boot, observe, refgds, simfs, spec as S, steps, util
from ..runner import Check, clone, generic_shrinks
from . import c02

R = refgds
UNSUPPORTED = [
    # (bytes of a whole element of an unsupported kind)
    R.rec(R.NODE) + R.rs(R.LAYER, 3) + R.rs(R.NODETYPE, 4) + R.rl(R.XY, 1, 2, 3, 4) + R.rec(R.ENDEL),
    R.rec(R.NODE) + R.rs(R.LAYER, 3) + R.rs(R.NODETYPE, 4) + R.rl(R.XY, 1, 2) + R.rs(R.PROPATTR, 7) + R.rt_(R.PROPVALUE, "node property") + R.rec(R.ENDEL),
    R.rec(R.NODE) + R.rec(R.ELFLAGS, b"\0\1") + R.rl(R.PLEX, 5) + R.rs(R.LAYER, 9) + R.rs(R.NODETYPE, 1) + R.rl(R.XY, 1, 2) + R.rec(R.ENDEL),
    # TEXTNODE (not currently used), an element code from the future
    struct.pack(">HBB", 4, 0x14, 0) + R.rs(R.LAYER, 1) + R.rl(R.XY, 0, 0) + R.rec(R.ENDEL),
    struct.pack(">HBB", 4, 0x40, 0) + R.rs(R.LAYER, 1) + R.rl(R.XY, 0, 0) + struct.pack(">HBBhh", 8, 0x55, 2, 1, 2) + R.rec(R.ENDEL),
]
UNKNOWN = [
    struct.pack(">HBBh", 6, 0x36, 2, 0),              # FORMAT
    struct.pack(">HBB", 8, 0x23, 6) + b"ATTR",        # ATTRTABLE
    struct.pack(">HBBh", 6, 0x22, 2, 3),              # GENERATIONS
    struct.pack(">HBB", 48, 0x1F, 6) + b"lib.gds" + b"\0" * 37,   # REFLIBS
    struct.pack(">HBB", 8, 0x7F, 6) + b"x" * 4,
    struct.pack(">HBBi", 8, 0x27, 3, 17),             # ELKEY
    struct.pack(">HBB", 4, 0x3B, 0),
    struct.pack(">HBB", 6, 0x3C, 1) + b"\0\1",
    struct.pack(">HBB", 20, 0xFF, 5) + b"\0" * 16,
]


def mutate(data, muts):
    """Applies mutations (JSON) to file bytes; positions are fractions."""
    b = bytearray(data)

    def recs():
        out = []
        pos = 0
        while pos + 4 <= len(b):
            size = (b[pos] << 8) | b[pos + 1]
            if size < 4 or pos + size > len(b):
                break
            out.append((pos, size))
            pos += size
        return out
    for m in muts:
        k, x = m["k"], m["x"]
        if not b:
            break
        if k == "flip":
            b[min(int(x * len(b)), len(b) - 1)] ^= 1 << m["bit"]
        elif k == "set":
            i = min(int(x * len(b)), len(b) - 1)
            b[i] = m["v"] & 255
        elif k == "zero":
            i = int(x * len(b))
            n = min(m["n"], len(b) - i)
            b[i:i + n] = b"\0" * n
        elif k == "junk":
            i = int(x * len(b))
            r = util.rng_from(m["v"])
            n = min(m["n"], len(b) - i)
            b[i:i + n] = bytes(r.getrandbits(8) for _ in range(n))
        elif k == "cut":
            del b[int(x * len(b)):]
        elif k == "del":
            i = int(x * len(b))
            del b[i:i + m["n"]]
        elif k == "ins":
            i = int(x * len(b))
            r = util.rng_from(m["v"])
            b[i:i] = bytes(r.choice([0, 0, 1, 4, 6, 255, r.getrandbits(8)]) for _ in range(m["n"]))
        elif k in ("size", "type", "rdel", "rdup", "rswap", "payload", "rmove"):
            rs = recs()
            if not rs:
                continue
            p, s = rs[min(int(x * len(rs)), len(rs) - 1)]
            if k == "size":
                b[p:p + 2] = struct.pack(">H", m["v"] if m["v"] >= 0 else max(0, min(65535, s + m["v"] + 10)))
            elif k == "type":
                b[p + 2] = m["v"] & 0xFF
                if m["bit"] & 1:
                    b[p + 3] = (m["v"] >> 3) % 8
            elif k == "rdel":
                del b[p:p + s]
            elif k == "rdup":
                b[p:p] = b[p:p + s]
            elif k == "rmove":
                blk = bytes(b[p:p + s])
                del b[p:p + s]
                q = int(m["y"] * len(rs))
                q = rs[min(q, len(rs) - 1)][0]
                q = min(q, len(b))
                b[q:q] = blk
            elif k == "rswap":
                q, t = rs[min(int(m["y"] * len(rs)), len(rs) - 1)]
                if q > p:
                    b[p:q + t] = b[q:q + t] + b[p + s:q] + b[p:p + s]
            elif k == "payload" and s > 4:
                i = p + 4 + int(m["y"] * (s - 4))
                w = bytes.fromhex(m["hex"])
                w = w[:p + s - i]
                b[i:i + len(w)] = w
        elif k == "tail":
            b.extend(b"\0" * m["n"])
    return bytes(b)


class C04(Check):
    id = "C04"
    title = "damaged input"
    quick = (9000, 50.0)
    thorough = (80000, 750.0)
    real = "gdspy readers and exporters, io buffering layers"
    stub = "disk (simulated raw files with read errors, short reads), clock"
    key_measure = "distinct (mutation kinds, reader, outcome kind)"
    case_measure = "a case is one reader on one damaged file (or one file with padding or unsupported records); non-trivial if the bytes differ from the valid file or a read error hit; distinct by bytes, reader and fault"
    assumptions = ["termination is judged by budgets proportional to the file size: 60 raw reads and 400 interpreter steps per byte, far above what any reader needs"]

    def plan(self, rng):
        o = S.Opt(hugearr=0.0, big=0.002, far=0.01, cells=(1, 4), els=(0, 4))
        p = {"spec": S.gen(rng, o), "ts": util.rand_ts(rng), "mode": rng.choice(["damage"] * 5 + ["benign", "benign"])}
        good = S.gen(rng, S.Opt(hugearr=0.0, big=0, cells=(1, 3), els=(0, 3)))
        p["good"] = good
        p["pre"] = S.gen(rng, S.Opt(hugearr=0.0, big=0, cells=(1, 3), els=(0, 3), kinds=["poly", "label", "sref", "flexg", "aref"]))
        p["clash"] = rng.random() < 0.2
        p["src"] = rng.choice(util.PATHKINDS + ["stream"])
        p["units"] = rng.choice(["skip", "import", "convert", "bogus"]) if rng.random() < 0.9 else "bogus"
        p["seed"] = rng.getrandbits(32)
        if p["mode"] == "benign":
            p["tail"] = rng.choice([0, 1, 2, 3, 4, 5, 100, 1024, 2048, 5000])
            p["unsup"] = [[rng.random(), rng.randrange(len(UNSUPPORTED))] for _ in range(rng.randint(0, 3))]
            p["unknown"] = [[rng.random(), rng.randrange(len(UNKNOWN))] for _ in range(rng.randint(0, 3))]
            p["short"] = rng.choice([0, 0.5])
            return p
        cases = []
        for _ in range(rng.randint(3, 8)):
            muts = []
            for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
                k = rng.choice(["flip", "flip", "set", "zero", "junk", "cut", "del", "ins", "size", "size", "size", "type", "type",
                                "rdel", "rdel", "rdup", "rswap", "rmove", "payload", "payload", "tail"])
                muts.append({"k": k, "x": rng.random(), "y": rng.random(), "bit": rng.randrange(8), "n": rng.choice([1, 2, 3, 4, 7, 30, 500]),
                             "v": rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 28, 27, 30, 65535, 65534, 32768, -10, -9, -8, -12, -11, rng.getrandbits(14)]),
                             "hex": rng.choice(["0000", "ffff", "80000000", "7fffffff", "00000000", "0000000000000000", "ff", "80", "7fff", "c3a9"])})
                if k == "size":
                    pass
                else:
                    muts[-1]["v"] = abs(muts[-1]["v"])
            c = {"m": muts, "short": rng.choice([0, 0, 0.5]), "eintr": rng.choice([0, 0, 0.1])}
            if rng.random() < 0.3:
                c["err"] = rng.choice(["EIO", "EBADF", "ESTALE"])
                c["at"] = rng.choice([1, 1, 2, 3, rng.randint(1, 40)])
                c["buf"] = rng.choice([None, 16, 64, 512])
                if rng.random() < 0.5:
                    c["m"] = []
            cases.append(c)
        p["cases"] = cases
        if rng.random() < 0.05:
            p["raw"] = [rng.choice(["empty", "one", "zeros", "text", "random", "header"]), rng.getrandbits(16)]
        return p

    def shrinks(self, plan):
        for q in generic_shrinks(plan, [("cases",), ("cases", "*", "m"), ("unsup",), ("unknown",)] + util.spec_lists()
                                 + [("pre", "cells"), ("good", "cells"), ("pre", "cells", "*", "els"), ("good", "cells", "*", "els")]):
            for k in ("spec", "pre", "good"):
                S.fix(q[k])
            yield q
        yield from util.simplify_elements(plan)
        for i, c in enumerate(plan.get("cases", ())):
            if c["short"] or c["eintr"]:
                q = clone(plan)
                q["cases"][i]["short"] = q["cases"][i]["eintr"] = 0
                yield q

    # -- execution -----------------------------------------------------------
    def run(self, plan, res):
        gd = boot.gdspy
        steps.install()
        fs = simfs.SimFS()
        simfs.current = fs
        p = simfs.ROOT + "/v.gds"
        lib, cells = S.build(gd, plan["spec"])
        lib.write_gds(p, timestamp=util.mkts(plan["ts"]))
        valid = fs.get(p)
        glib, _ = S.build(gd, plan["good"])
        glib.write_gds(p, timestamp=util.mkts(plan["ts"]))
        good = fs.get(p)
        res.see(valid, good)
        if plan["mode"] == "benign":
            self.benign(gd, plan, valid, res)
            return
        for i, c in enumerate(plan["cases"]):
            data = mutate(valid, c["m"])
            if "raw" in plan:
                k, v = plan["raw"]
                r = util.rng_from(v)
                data = {"empty": b"", "one": bytes([v & 255]), "zeros": b"\0" * (v % 3000), "text": b"not a gds file\n" * (v % 50),
                        "random": bytes(r.getrandbits(8) for _ in range(v % 3000)), "header": valid[:4] + b"\0" * (v % 10)}[k]
            for f in c["m"]:
                res.add({"damage:" + f["k"]: 1})
            self.case(gd, plan, c, i, valid, data, good, res)
            if res.violations:
                return
        res.samples.append({"bytes": len(valid), "cases": [[m["k"] for m in c["m"]] + [c.get("err")] for c in plan["cases"]][:3]})

    def fs(self, plan, c, i, data):
        faults = []
        if "err" in c:
            faults.append({"op": "read", "n": c["at"], "err": c["err"]})
        fs = simfs.SimFS(util.rng_from(plan["seed"] + i), faults, c["short"], c["eintr"], c.get("buf"))
        fs.read_budget = 500 + 60 * len(data)
        simfs.current = fs
        p = simfs.ROOT + "/bad.gds"
        fs.put(p, data)
        src = p
        if plan["src"] == "stream":
            src = fs.source = simfs.SourceStream(data, c["at"] if "err" in c else None, 500 + 8 * len(data))
        else:
            src = util.as_path(plan["src"], p)
        return fs, p, src

    def attempt(self, name, fn, fs, data, res, c, valid):
        """Runs a reader; returns (value, exception) or None after a violation."""
        res.evals += 1
        out = exc = None
        try:
            with steps.Steps(20000 + 400 * len(data)):
                out = fn()
        except simfs.Hang as e:
            res.violate("no-end", "%s on %d bytes: more than %s" % (name, len(data), e))
            return None
        except Exception as e:
            exc = e
        except BaseException as e:
            res.violate("extraordinary-exception", "%s: %r" % (name, e))
            return None
        res.add({k: v for k, v in fs.fired.items()})
        res.key([m["k"] for m in c["m"]], c.get("err"), name, type(exc).__name__)
        if data != valid or fs.fired:
            res.case(data, name, c.get("err"), c.get("at"))
        closed = getattr(fs, "source", None)
        if closed is not None and (closed.closed or closed.close_calls):
            res.violate("stream-closed", "%s closed the stream it was given (%r)" % (name, exc))
            return None
        left = fs.open_handles()
        if left:
            res.violate("left-open", "%s left %d files open (%r)" % (name, len(left), exc))
            return None
        return out, exc

    def case(self, gd, plan, c, i, valid, data, good, res):
        # import into a library with cells
        prespec = clone(plan["pre"])
        pre, precells = S.build(gd, prespec)
        if plan["clash"] and precells:
            # the damaged file also has a cell of this name
            n = list(precells)[0]
            new = plan["spec"]["cells"][-1]["name"] if plan["spec"]["cells"] else n
            if new not in precells and n in pre.cells:
                pre.rename_cell(n, new)
        lay0 = observe.library(pre)
        ids0 = {k: id(v) for k, v in pre.cells.items()}
        fs, p, src = self.fs(plan, c, 10 * i, data)
        r = self.attempt("read_gds", lambda: pre.read_gds(src, units=plan["units"]), fs, data, res, c, valid)
        if r is None:
            return
        for k, ident in ids0.items():
            cell = pre.cells.get(k)
            if cell is None or id(cell) != ident:
                res.violate("cell-replaced", "cell %r of the library was %s" % (k, "lost" if cell is None else "replaced"))
                return
        if set(pre.cells) == set(ids0) or r[1] is not None:
            lay1 = observe.library(pre)
            d = observe.diff(lay0["cells"], lay1["cells"])
            if d:
                res.violate("existing-cells-changed", "import %s: %s" % ("failed with %r" % r[1] if r[1] else "returned", d))
                return
        else:
            lay1 = observe.library(pre, [k for k in ids0])
            d = observe.diff({k: v for k, v in lay0["cells"].items()}, {k: v for k, v in lay1["cells"].items()})
            if d:
                res.violate("existing-cells-changed", "import returned: %s" % d)
                return
        # a following import of a good file with the same objects
        fs2 = simfs.SimFS()
        simfs.current = fs2
        gp = simfs.ROOT + "/good.gds"
        fs2.put(gp, good)
        gnames = [x["name"] for x in R.decode(good)["cells"]]
        if r[1] is not None and not set(gnames) & set(ids0):
            ref, _ = S.build(gd, prespec)
            if set(ref.cells) == set(ids0):
                ref.read_gds(gp, units="import")
                pre.read_gds(gp, units="import")
                d = observe.diff(observe.library(ref), observe.library(pre))
                if d:
                    res.violate("later-import-differs", "after an import that failed with %r: %s" % (r[1], d))
                    return
        # the same damaged source, in other readers
        for k, (name, fn) in enumerate((("get_gds_units", gd.get_gds_units), ("get_binary_cells", gd.get_binary_cells))):
            fs, p, src = self.fs(plan, c, 10 * i + 1 + k, data)
            if self.attempt(name, lambda: fn(src), fs, data, res, c, valid) is None:
                return
        fs, p, src = self.fs(plan, c, 10 * i + 4, data)
        if plan["src"] != "stream":
            p = src
        if self.attempt("gdsii_hash", lambda: gd.gdsii_hash(p), fs, data, res, c, valid) is None:
            return
        fs, p, src = self.fs(plan, c, 10 * i + 5, data)
        if plan["src"] != "stream":
            p = src
        r = self.attempt("set_gdsii_timestamp", lambda: gd.set_gdsii_timestamp(p, util.mkts(plan["ts"])), fs, data, res, c, valid)
        if r is None:
            return
        if len(fs.get(simfs.ROOT + "/bad.gds")) != len(data):
            res.violate("length-changed", "set_gdsii_timestamp: %d -> %d" % (len(data), len(fs.get(simfs.ROOT + "/bad.gds"))))
            return
        # following operations on a good file, fresh objects
        simfs.current = fs2
        fresh = gd.GdsLibrary(infile=gp, units="import")
        gdec = R.decode(good)
        if sorted(fresh.cells) != sorted(gnames):
            res.violate("later-import-differs", "cells %r instead of %r" % (sorted(fresh.cells), sorted(gnames)))
            return
        for x in gdec["cells"]:
            d = c02.CHECK.check_cell(gd, fresh, fresh.cells[x["name"]], x["els"], gdec["db_user"])
            if d:
                res.violate("later-import-differs", "cell %r: %s" % (x["name"], d))
                return

    def benign(self, gd, plan, valid, res):
        dec = R.decode(valid)
        # insert unsupported elements and records
        els = []
        inner = []
        for pos, size, rt, dt_, b in R.records(valid):
            if rt in (R.BOUNDARY, R.PATH, R.SREF, R.AREF, R.TEXT, R.ENDSTR):
                els.append(pos)
            if rt in (R.LAYER, R.SNAME, R.BOUNDARY, R.PATH, R.TEXT, R.UNITS, R.ENDSTR):
                inner.append(pos if rt in (R.UNITS,) else pos + size)
        edits = []
        for x, j in plan["unsup"]:
            if els:
                edits.append((els[int(x * len(els))], UNSUPPORTED[j]))
        for x, j in plan["unknown"]:
            if inner:
                edits.append((inner[int(x * len(inner))], UNKNOWN[j]))
        edits.sort(key=lambda e: e[0])
        out = bytearray()
        last = 0
        for pos, blk in edits:
            out += valid[last:pos] + blk
            last = pos
        out += valid[last:]
        out += b"\0" * plan["tail"]
        data = bytes(out)
        c = {"short": plan["short"], "eintr": 0, "m": [{"k": "pad" if plan["tail"] else "records"}]}
        units = plan["units"] if plan["units"] != "bogus" else "import"
        fs, p, src = self.fs(plan, c, 1, data)
        lib = gd.GdsLibrary("fresh", unit=dec["unit"], precision=dec["precision"])
        r = self.attempt("read_gds", lambda: lib.read_gds(src, units=units), fs, data, res, c, valid)
        if r is None:
            return
        res.add({"padding": 1 if plan["tail"] else 0, "unsupported-element": len(plan["unsup"]), "unknown-record": len(plan["unknown"])})
        if r[1] is not None:
            res.violate("padding-or-unsupported", "import raised %r" % (r[1],))
            return
        if lib.name != dec["name"] or sorted(lib.cells) != sorted(x["name"] for x in dec["cells"]):
            res.violate("padding-or-unsupported", "import: %r %r" % (lib.name, sorted(lib.cells)))
            return
        f = dec["db_user"] if units != "convert" else dec["db_meter"] / dec["unit"]
        for x in dec["cells"]:
            d = c02.CHECK.check_cell(gd, lib, lib.cells[x["name"]], x["els"], f)
            if d:
                res.violate("padding-or-unsupported", "import, cell %r: %s" % (x["name"], d))
                return
        fs, p, src = self.fs(plan, c, 2, data)
        r = self.attempt("get_gds_units", lambda: gd.get_gds_units(src), fs, data, res, c, valid)
        if r is None:
            return
        if r[1] is not None or not (S.fclose(r[0][0], dec["unit"]) and S.fclose(r[0][1], dec["precision"])):
            res.violate("padding-or-unsupported", "get_gds_units: %r" % (r,))
            return
        fs, p, src = self.fs(plan, c, 3, data)
        r = self.attempt("get_binary_cells", lambda: gd.get_binary_cells(src), fs, data, res, c, valid)
        if r is None:
            return
        if r[1] is not None or sorted(r[0]) != sorted(x["name"] for x in dec["cells"]):
            res.violate("padding-or-unsupported", "get_binary_cells: %r" % (r[1] or sorted(r[0]),))
            return
        if not edits:
            want = {x["name"]: x["raw"] for x in dec["cells"]}
            if {k: bytes(v) for k, v in r[0].items()} != want:
                res.violate("padding-or-unsupported", "get_binary_cells: contents")
                return
            fs, p, src = self.fs(plan, c, 4, data)
            r = self.attempt("gdsii_hash", lambda: gd.gdsii_hash(p), fs, data, res, c, valid)
            if r is None:
                return
            fs.put(p, valid)
            if r[1] is not None or r[0] != gd.gdsii_hash(p):
                res.violate("padding-or-unsupported", "gdsii_hash: %r" % (r,))
                return
        fs, p, src = self.fs(plan, c, 5, data)
        r = self.attempt("set_gdsii_timestamp", lambda: gd.set_gdsii_timestamp(p, util.mkts([2001, 2, 3, 4, 5, 6])), fs, data, res, c, valid)
        if r is None:
            return
        if r[1] is not None:
            res.violate("padding-or-unsupported", "set_gdsii_timestamp raised %r" % (r[1],))


CHECK = C04()
