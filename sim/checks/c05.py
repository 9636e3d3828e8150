"""C05: in-place timestamps touch nothing else, crash or not."""
from .. import boot, refgds, simfs, spec as S, util
from ..runner import Check, clone, generic_shrinks
from . import c02, c04

R = refgds


def stamp_bytes(t):
    return b"".join(x.to_bytes(2, "big") for x in t[:6]) * 2


class C05(Check):
    id = "C05"
    title = "in-place timestamps"
    quick = (12000, 40.0)
    thorough = (100000, 700.0)
    real = "gdspy.set_gdsii_timestamp and gdsii_hash, io buffering layers (read-write)"
    stub = "disk (simulated raw file; a kill keeps exactly what reached it)"
    key_measure = "distinct (raw operation at which the fault hit, number of timestamp fields already rewritten, fault kind, buffer size)"
    case_measure = "a case is one rewrite under one fault, kill or short-transfer plan, checked at every raw operation; non-trivial if the file has at least one timestamp and the fault hit (or none was planned); distinct by file, timestamp and fault"

    def plan(self, rng):
        o = S.Opt(hugearr=0.0, big=0.003, far=0.01, cells=(0, 5), els=(0, 3))
        p = {"spec": S.gen(rng, o), "ts": util.rand_ts(rng), "new": util.rand_ts(rng), "writer": rng.choice(["own", "own", "foreign"])}
        p["path"] = rng.choice(util.PATHKINDS)
        p["tail"] = rng.choice([0] * 4 + [1, 4, 100, 2048])
        runs = []
        for _ in range(rng.randint(3, 8)):
            k = rng.choice(["none", "kill", "kill", "killb", "write", "write", "read", "close", "open"])
            runs.append({"k": k, "x": rng.random(), "err": rng.choice(["EIO", "ENOSPC", "EROFS", "EDQUOT"]), "sticky": rng.random() < 0.3,
                         "short": rng.choice([0, 0, 0.5, 0.9]), "eintr": rng.choice([0, 0.1]),
                         "buf": rng.choice([None, None, 16, 29, 30, 64, 512]), "retries": rng.choice([1, 1, 2, 3])})
        p["runs"] = runs
        p["seed"] = rng.getrandbits(32)
        return p

    def shrinks(self, plan):
        for q in generic_shrinks(plan, [("runs",)] + util.spec_lists()):
            S.fix(q["spec"])
            yield q
        yield from util.simplify_elements(plan)
        for i, r in enumerate(plan["runs"]):
            for k, v in (("short", 0), ("eintr", 0), ("retries", 1)):
                if r[k] != v:
                    q = clone(plan)
                    q["runs"][i][k] = v
                    yield q
        for k, v in (("path", "str"), ("tail", 0), ("writer", "own")):
            if plan[k] != v:
                q = clone(plan)
                q[k] = v
                yield q

    def run(self, plan, res):
        gd = boot.gdspy
        fs = simfs.SimFS()
        simfs.current = fs
        p = simfs.ROOT + "/f.gds"
        lib, _ = S.build(gd, plan["spec"])
        lib.write_gds(p, timestamp=util.mkts(plan["ts"]))
        data = fs.get(p)
        if plan["writer"] == "foreign":
            # different creation and modification times per cell
            b = bytearray(data)
            for i, (s, e) in enumerate(R.stamp_spans(data)):
                b[s:e] = bytes((7 * i + j) % 128 for j in range(e - s))
            data = bytes(b)
        spans = R.stamp_spans(data)
        data += b"\0" * plan["tail"]
        want = bytearray(data)
        for s, e in spans:
            want[s:e] = stamp_bytes(plan["new"])
        want = bytes(want)
        fs.put(p, data)
        h0 = gd.gdsii_hash(p)
        mask = bytearray(b"\xff" * len(data))
        for s, e in spans:
            mask[s:e] = b"\0" * (e - s)
        res.see(data, h0)
        # raw operations and bytes of an undisturbed rewrite
        for i, r in enumerate(plan["runs"]):
            if not self.one(gd, plan, r, i, p, data, want, spans, h0, res):
                return
        res.samples.append({"bytes": len(data), "timestamps": len(spans), "runs": plan["runs"][:2]})

    def one(self, gd, plan, r, i, p, data, want, spans, h0, res):
        total = self.dry(gd, plan, r, i, p, data)
        faults = []
        k = r["k"]
        if k == "kill":
            faults.append({"op": "kill", "at": int(r["x"] * (total[0] + 1))})
        elif k == "killb":
            faults.append({"op": "killb", "at": int(r["x"] * (total[1] + 1))})
        elif k == "write":
            faults.append({"op": "write", "at": int(r["x"] * (total[1] + 1)), "err": r["err"], "sticky": r["sticky"]})
        elif k == "read":
            faults.append({"op": "read", "n": 1 + int(r["x"] * total[2]), "err": "EIO"})
        elif k == "close":
            faults.append({"op": "close", "err": r["err"]})
        elif k == "open":
            faults.append({"op": "open", "n": 1, "err": r["err"]})
        fs = simfs.SimFS(util.rng_from(plan["seed"] + i), faults, r["short"], r["eintr"], r["buf"])
        fs.read_budget = 500 + 60 * len(data)
        simfs.current = fs
        fs.put(p, data)
        bad = []
        node = fs.files[p].data

        def check(what):
            if bad:
                return
            if p not in fs.files:
                bad.append("the file is gone before %s" % what)
                return
            cur = fs.files[p].data
            if len(cur) != len(data):
                bad.append("length %d instead of %d before %s (operation %d)" % (len(cur), len(data), what, fs.rawops))
                return
            if cur != data:
                last = 0
                for s, e in spans + [(len(data), len(data))]:
                    if cur[last:s] != data[last:s]:
                        bad.append("bytes between %d and %d differ before %s (operation %d)" % (last, s, what, fs.rawops))
                        return
                    last = e
        fs.on_rawop = check
        out = None
        new = util.mkts(plan["new"])
        try:
            gd.set_gdsii_timestamp(util.as_path(plan["path"], p), new)
        except simfs.SimKill as e:
            out = e
        except simfs.Hang as e:
            res.violate("no-end", str(e))
            return False
        except Exception as e:
            out = e
        fs.on_rawop = None
        fired = {a: b for a, b in fs.fired.items() if not a.startswith(("EINTR", "short"))}
        res.add(fs.fired)
        res.evals += fs.rawops + 1
        fs.dead = True
        check("the end")
        if bad:
            res.violate("other-bytes-changed", "%s; fault %s" % (bad[0], faults))
            return False
        cur = fs.get(p)
        done = sum(1 for s, e in spans if cur[s:e] == want[s:e])
        res.key(fs.rawops, done, k, r["buf"])
        if fired or k == "none":
            res.case(data, plan["new"], k, fs.rawops, fs.written, r["buf"])
        if out is None:
            if fs.open_handles():
                res.violate("left-open", "%d files" % len(fs.open_handles()))
                return False
            if cur != want:
                i0 = [j for j in range(len(data)) if cur[j] != want[j]][0]
                res.violate("not-rewritten", "returned normally, byte %d is %d instead of %d; fault %s fired %s" % (i0, cur[i0], want[i0], faults, fired))
                return False
        elif not fired:
            res.violate("unexpected-failure", repr(out))
            return False
        # whatever happened, contents and hash are the same, and trying again completes
        for _ in range(r["retries"]):
            fs2 = simfs.SimFS()
            simfs.current = fs2
            fs2.put(p, cur)
            h = gd.gdsii_hash(p)
            if h != h0:
                res.violate("hash-changed", "%s -> %s" % (h0, h))
                return False
            gd.set_gdsii_timestamp(util.as_path(plan["path"], p), new)
            fs2.dead = True
            cur = fs2.get(p)
            if cur != want:
                res.violate("retry-incomplete", "after %s" % (faults,))
                return False
        return True

    def dry(self, gd, plan, r, i, p, data):
        fs = simfs.SimFS(util.rng_from(plan["seed"] + i), (), r["short"], r["eintr"], r["buf"])
        simfs.current = fs
        fs.read_budget = 500 + 60 * len(data)
        fs.put(p, data)
        try:
            gd.set_gdsii_timestamp(p, util.mkts(plan["new"]))
        except BaseException:
            pass
        return fs.rawops, fs.written, fs.reads


CHECK = C05()
