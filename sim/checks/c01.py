"""C01: a successful export is complete; a failed write raises."""
import errno
import gc
import io
import math
import xml.etree.ElementTree as ET

from .. import boot, expand as X, refgds, simfs, spec as S, util
from ..runner import Check, clone, generic_shrinks

ERRS = ["EIO", "ENOSPC", "EDQUOT", "EFBIG"]
ROUTES = ["lib", "lib", "cells", "writer", "writer", "wbinary", "libbinary", "svg", "svg"]


class OnlyWrite(object):
    """A caller's stream that can do nothing but be written to."""
    __slots__ = ("parts", "n", "text", "fail_at", "err", "fired", "closes")

    def __init__(self, text, fail_at=None, err="EIO"):
        self.parts = []
        self.n = 0
        self.text = text
        self.fail_at = fail_at
        self.err = err
        self.fired = 0
        self.closes = 0

    def write(self, b):
        if self.text != isinstance(b, str):
            raise TypeError("wrong type written: %s" % type(b).__name__)
        b = b if self.text else bytes(b)
        if self.fail_at is not None and self.n + len(b) > self.fail_at:
            self.fired += 1
            self.parts.append(b[:self.fail_at - self.n])
            self.n = self.fail_at
            raise OSError(getattr(errno, self.err), "simulated")
        self.parts.append(b)
        self.n += len(b)
        return len(b)

    def flush(self):
        pass

    def close(self):
        self.closes += 1

    def value(self):
        return ("" if self.text else b"").join(self.parts)


class C01(Check):
    id = "C01"
    title = "complete exports, failed writes raise"
    quick = (9000, 45.0)
    thorough = (100000, 700.0)
    real = "gdspy exporters, io buffering layers"
    stub = "disk (simulated raw files), caller streams, clock"
    key_measure = "distinct (route, destination kind, fault kind, raw operation hit, bytes on disk at that point)"
    case_measure = "a case is one export under one fault or kill point; non-trivial if the fault really hit (or the run was fault-free and completed); distinct by layout, route, destination and fault position"
    assumptions = ["SVG documents are encoded in UTF-8 by the simulated files"]

    def plan(self, rng):
        route = rng.choice(ROUTES)
        o = S.Opt(hugearr=0, big=0 if route == "svg" else 0.01, far=0, cells=(1, 4))
        p = {"spec": S.gen(rng, o), "route": route, "ts": util.rand_ts(rng)}
        p["path"] = rng.choice(util.PATHKINDS)
        p["bufsize"] = rng.choice([None, None, 1, 16, 512, 4096])
        p["svg"] = {}
        if rng.random() < 0.6:
            p["svg"] = {"scaling": rng.choice([1, 10, 0.5]), "precision": rng.choice([None, 3, 0]),
                        "background": rng.choice([None, "#222", "white"]), "pad": rng.choice([0, "5%", 3]),
                        "style": rng.random() < 0.3}
        p["old"] = rng.random() < 0.5
        faults = []
        for _ in range(rng.randint(4, 9)):
            k = rng.choice(["write", "write", "write", "close", "open", "killret", "kill", "stream", "short"])
            f = {"k": k, "x": rng.random(), "err": rng.choice(ERRS), "sticky": rng.random() < 0.5}
            if k == "write" and rng.random() < 0.35:
                f["x"] = rng.choice([0.0, 1.0])     # first and last byte
            faults.append(f)
        p["faults"] = faults
        p["seed"] = rng.getrandbits(32)
        return p

    def shrinks(self, plan):
        for q in generic_shrinks(plan, [("faults",)] + util.spec_lists()):
            S.fix(q["spec"])
            yield q
        yield from util.simplify_elements(plan)
        for k, v in (("path", "str"), ("bufsize", None), ("svg", {}), ("old", False)):
            if plan[k] != v:
                q = clone(plan)
                q[k] = v
                yield q

    def export(self, gd, plan, dest, built):
        lib, cells, bins = built
        ts = util.mkts(plan["ts"])
        route = plan["route"]
        names = list(cells)
        if route == "lib":
            lib.write_gds(dest, timestamp=ts)
        elif route == "cells":
            lib.write_gds(dest, cells=names, timestamp=ts)
        elif route == "libbinary":
            lib.write_gds(dest, cells=names[:1], timestamp=ts, binary_cells=iter(bins))
        elif route in ("writer", "wbinary"):
            w = gd.GdsWriter(dest, lib.name, lib.unit, lib.precision, ts)
            for n in names:
                w.write_cell(cells[n], ts)
            if route == "wbinary":
                w.write_binary_cells(bins)
            w.close()
        else:
            a = dict(plan["svg"])
            if a.pop("style", False):
                a["style"] = {(1, 1): {"fill": "red", "opacity": "0.5"}}
                a["fontstyle"] = {(1, 1): {"fill": "blue"}}
            cells[names[-1]].write_svg(dest, **a)

    def run(self, plan, res):
        gd = boot.gdspy
        if not plan["spec"]["cells"]:
            return
        lib, cells = S.build(gd, plan["spec"])
        if plan["route"] == "svg":
            for c in cells.values():
                try:
                    c.get_polygons()
                except (ValueError, IndexError, ZeroDivisionError):
                    return
            if cells[list(cells)[-1]].get_bounding_box() is None:
                return
        text = plan["route"] == "svg"
        bins = []
        aux = simfs.SimFS()
        simfs.current = aux
        ap = simfs.ROOT + "/aux"
        lib.write_gds(ap, timestamp=util.mkts(plan["ts"]))
        bins = [bytes(v) for v in gd.get_binary_cells(ap).values()]
        built = lib, cells, bins
        # fault-free, to memory
        mem = OnlyWrite(text)
        self.export(gd, plan, mem, built)
        golden = mem.value()
        if mem.closes:
            res.violate("caller-stream-closed", plan["route"])
            return
        r = self.complete(plan, golden, cells, bins)
        if r:
            res.violate("incomplete-document", r)
            return
        if text:
            golden = golden.encode("utf-8")
        res.see(golden)
        res.evals += 1
        # fault-free, to a path; then the process dies
        fs, path, out = self.attempt(gd, plan, built, (), res, None)
        if out is not None:
            res.violate("unexpected-failure", repr(out))
            return
        if not self.after_return(fs, path, golden, plan, "killret", res):
            return
        res.case(golden, plan["route"], plan["path"], "ok")
        total_ops, total_bytes = fs.rawops, fs.written
        for i, f in enumerate(plan["faults"]):
            k = f["k"]
            x = f["x"]
            res.evals += 1
            if k == "stream":
                self.stream_fault(gd, plan, built, f, golden, text, res)
                if res.violations:
                    return
                continue
            faults = []
            short = 0.0
            if k == "write":
                faults.append({"op": "write", "at": min(int(x * total_bytes), total_bytes - 1), "err": f["err"], "sticky": f["sticky"]})
            elif k == "close":
                faults.append({"op": "close", "err": f["err"]})
            elif k == "open":
                faults.append({"op": "open", "n": 1, "err": f["err"] if f["err"] != "EFBIG" else "EACCES"})
            elif k == "kill":
                faults.append({"op": "kill", "at": int(x * total_ops)})
            elif k in ("short", "killret"):
                short = 0.2 + 0.7 * x
            fs, path, out = self.attempt(gd, plan, built, faults, res, (plan["seed"] + i, short))
            fired = {a: b for a, b in fs.fired.items() if not a.startswith(("EINTR", "short"))}
            res.add(fs.fired)
            res.key(plan["route"], plan["path"], k, fs.rawops, len(fs.get(path) or b""))
            if fired:
                res.case(golden, plan["route"], plan["path"], k, fs.rawops, fs.written, f["err"])
            if k in ("short", "killret"):
                if out is not None:
                    res.violate("unexpected-failure", "with short writes: %r" % (out,))
                    return
                if not self.after_return(fs, path, golden, plan, k, res):
                    return
            elif k == "kill":
                continue
            elif out is None:
                if fired:
                    res.violate("failure-swallowed", "%s of the destination failed (%s at %s), %s returned normally; %d of %d bytes there" % (
                        k, f["err"], faults[0].get("at"), plan["route"], len(fs.get(path) or b""), len(golden)))
                    return
                if not self.after_return(fs, path, golden, plan, k, res):
                    return
            elif not isinstance(out, OSError) or not fired:
                # any other exception is still "raises"; only note it
                res.count("raised:" + type(out).__name__)
        res.samples.append({"route": plan["route"], "path": plan["path"], "bytes": len(golden), "faults": plan["faults"][:3]})

    def attempt(self, gd, plan, built, faults, res, io_):
        seed, short = io_ or (0, 0.0)
        fs = simfs.SimFS(util.rng_from(seed), faults, short, short / 4, plan["bufsize"])
        simfs.current = fs
        path = simfs.ROOT + "/out"
        if plan["old"]:
            fs.put(path, b"previous contents " * 1000)
        out = None
        try:
            self.export(gd, plan, util.as_path(plan["path"], path), built)
        except simfs.SimKill as e:
            out = e
        except Exception as e:
            out = e
        return fs, path, out

    def after_return(self, fs, path, golden, plan, k, res):
        # nothing of the process survives but the disk; `fs` holds references
        # to all handles, so no destructor has flushed anything
        fs.dead = True
        data = fs.get(path)
        still = fs.open_handles()
        if data != golden:
            res.violate("incomplete-after-return", "%s to a %s path returned; %s of %d bytes on disk, equal prefix %s (case %s)" % (
                plan["route"], plan["path"], None if data is None else len(data), len(golden),
                data is not None and golden.startswith(data), k))
            return False
        if still:
            res.violate("left-open", "%s to a %s path left %d files open" % (plan["route"], plan["path"], len(still)))
            return False
        return True

    def stream_fault(self, gd, plan, built, f, golden, text, res):
        pre = "before" if text else b"before"
        if f["x"] < 0.3:
            fs = simfs.SimFS()
            simfs.current = fs
            st = OnlyWrite(text)
            if f["x"] > 0.1:
                st = io.StringIO() if text else io.BytesIO()
            if f["x"] > 0.2:
                st = open(simfs.ROOT + "/caller", "w" if text else "wb")
            st.write(pre)
            self.export(gd, plan, st, built)
            if getattr(st, "closes", 0) or getattr(st, "closed", False):
                res.violate("caller-stream-closed", plan["route"])
                return
            if f["x"] > 0.2:
                st.close()
                v = fs.get(simfs.ROOT + "/caller")
            else:
                v = st.getvalue() if f["x"] > 0.1 else st.value()
                v = v.encode("utf-8") if text else v
            res.case(golden, plan["route"], "stream", int(f["x"] * 10))
            if v != b"before" + golden:
                res.violate("stream-content", "a stream that had contents: %d bytes instead of %d" % (len(v), len(golden) + 6))
            return
        n = len(golden.decode("utf-8")) if text else len(golden)
        st = OnlyWrite(text, min(int((f["x"] - 0.3) / 0.7 * n), n - 1), f["err"])
        try:
            self.export(gd, plan, st, built)
        except OSError:
            pass
        else:
            res.violate("failure-swallowed", "writing to the caller's stream failed after %d of %d, %s returned normally" % (st.fail_at, n, plan["route"]))
        res.add({"stream:" + f["err"]: st.fired})
        res.case(golden, plan["route"], "stream", st.fail_at)
        if st.closes:
            res.violate("caller-stream-closed", plan["route"] + " after a failure")

    def complete(self, plan, doc, cells, bins):
        """Independent completeness of the fault-free document."""
        names = list(cells)
        if plan["route"] == "svg":
            try:
                root = ET.fromstring(doc)
            except ET.ParseError as e:
                return "SVG does not parse: %s" % e
            ns = "{http://www.w3.org/2000/svg}"
            if root.tag != ns + "svg":
                return "root element %s" % root.tag
            ids = set(g.get("id") for g in root.iter(ns + "g"))
            top = cells[names[-1]]
            want = set(c.name.replace("#", "_") for c in top.get_dependencies(True)) | {top.name.replace("#", "_")}
            if not want <= ids | set(u.get("{http://www.w3.org/1999/xlink}href", "#")[1:] for u in root.iter(ns + "use")):
                return "cells %r missing" % sorted(want - ids)
            deps = list(top.get_dependencies(True)) + [top]
            if len(want) != len(deps):
                return None
            try:
                return X.svg_diff(doc, top, plan["svg"].get("scaling", 10), plan["svg"].get("precision") is None)
            except X.TooLarge:
                return None
        try:
            dec = refgds.decode(doc)
        except refgds.FormatError as e:
            return str(e)
        got = [c["name"] for c in dec["cells"]]
        want = names[:1] + names if plan["route"] == "libbinary" else names + names if plan["route"] == "wbinary" else names
        if sorted(got) != sorted(want):
            return "cells %r instead of %r" % (got, want)
        return None


CHECK = C01()
