"""C06: the content hash identifies cell contents and nothing else."""
import hashlib

from .. import boot, refgds, simfs, spec as S, util
from ..runner import Check, clone, generic_shrinks

R = refgds


class Engine(object):
    def __init__(self):
        self.parts = []
        self.digests = 0

    def update(self, b):
        self.parts.append(bytes(b))

    def hexdigest(self):
        self.digests += 1
        return hashlib.sha1(b"".join(self.parts)).hexdigest()


def change(els, rng):
    """A single content change of an element list; returns a description."""
    i = rng.randrange(len(els))
    e = list(els[i])
    k = e[0]
    opts = ["dup", "del", "swap", "props", "field", "field", "field", "coord", "coord"]
    o = rng.choice(opts)
    if o == "dup":
        els.insert(i, els[i])
        return "element repeated"
    if o == "del":
        del els[i]
        return "element removed"
    if o == "swap":
        j = rng.randrange(len(els))
        if els[i] != els[j]:
            els[i], els[j] = els[j], els[i]
            return "elements swapped"
        o = "coord"
    if o == "props":
        pr = list(e[-1])
        if pr and rng.random() < 0.7:
            a, v = pr[-1]
            pr[-1] = (a, v + "x") if rng.random() < 0.5 else (a % 126 + 1, v)
        else:
            pr.append((126, "zz"))
        e[-1] = tuple(pr)
        els[i] = tuple(e)
        return "properties"
    if o == "field":
        if k == "B":
            j = rng.choice([1, 2])
            e[j] = (e[j] + 1) % 32768
        elif k == "P":
            j = rng.choice([1, 2, 3, 4])
            if j == 4:
                e[4] = 0 if e[4] != 0 else 1
            else:
                e[j] += 1 if j == 3 else (1 if e[j] < 32767 else -1)
        elif k == "T":
            j = rng.choice([1, 2, 3, 4, 5, 6, 8])
            if j in (1, 2):
                e[j] = (e[j] + 1) % 32768
            elif j == 3:
                e[3] = 5 if e[3] != 5 else 4
            elif j == 4:
                e[4] = not e[4]
            elif j in (5, 6):
                e[j] = 3.0 if e[j] is None else None
            else:
                e[8] = e[8] + "q"
        else:
            j = rng.choice([1, 2, 3, 4] + ([5] if k == "A" else []))
            if j == 1:
                e[1] = e[1] + "Q"
            elif j == 2:
                e[2] = not e[2]
            elif j == 5:
                e[5] += 1 if e[5] < 32767 else -1
            else:
                e[j] = 3.0 if e[j] is None else None
        els[i] = tuple(e)
        return "attribute %d of %s" % (j, k)
    j = {"B": 3, "P": 5, "T": 7, "S": 5, "A": 7}[k]
    pts = [list(p) for p in ([e[j]] if k in "TS" else e[j])]
    n = rng.randrange(len(pts))
    c = rng.randrange(2)
    pts[n][c] += 1 if pts[n][c] < 2 ** 31 - 1 else -1
    pts = tuple(tuple(p) for p in pts)
    e[j] = pts[0] if k in "TS" else pts
    els[i] = tuple(e)
    return "coordinate of %s" % k


class C06(Check):
    id = "C06"
    title = "content hash"
    quick = (12000, 45.0)
    thorough = (100000, 700.0)
    real = "gdspy.gdsii_hash and exporters, io buffering layers"
    stub = "disk, clock, hash engine (recording)"
    key_measure = "distinct (variant kind, number of cells, file size class) and engine call sequences"
    case_measure = "a case is one pair of files, equal or differing in cell contents; non-trivial if the two files' bytes differ; distinct by the pair"

    def plan(self, rng):
        o = S.Opt(hugearr=0.0, big=0.002, far=0.01, cells=(1, 6), els=(0, 4))
        p = {"spec": S.gen(rng, o), "ts": util.rand_ts(rng), "seed": rng.getrandbits(32)}
        p["vars"] = [[rng.choice(["ts", "restamp", "name", "units", "order", "order", "writer", "binary", "clock", "all", "cellts"]), rng.getrandbits(30)] for _ in range(4)]
        p["chg"] = [[rng.choice(["element", "element", "element", "cellname", "dropcell", "dupcell", "addcell", "move", "samecells"]), rng.getrandbits(30)] for _ in range(5)]
        p["io"] = {"short": rng.choice([0, 0.5]), "eintr": rng.choice([0, 0.1]), "buf": rng.choice([None, 16, 512])}
        p["path"] = rng.choice(util.PATHKINDS)
        return p

    def shrinks(self, plan):
        for q in generic_shrinks(plan, [("vars",), ("chg",)] + util.spec_lists()):
            S.fix(q["spec"])
            yield q
        yield from util.simplify_elements(plan)

    def run(self, plan, res):
        gd = boot.gdspy
        self.io = plan["io"]
        self.plan_ = plan
        self.nfile = 0
        boot.clock.reset(util.mkts(plan["ts"]), 1.0)
        lib, cells = S.build(gd, plan["spec"])
        fs = simfs.SimFS()
        simfs.current = fs
        p = simfs.ROOT + "/a.gds"
        ts = util.mkts(plan["ts"])
        lib.write_gds(p, timestamp=ts)
        base = fs.get(p)
        h0 = self.hash(gd, base, res)
        res.see(base, h0)
        dec = R.decode(base)
        names = list(cells)
        # invariance
        for kind, seed in plan["vars"]:
            rng = util.rng_from(seed)
            simfs.current = fs
            order = list(names)
            rng.shuffle(order)
            other = util.mkts(util.rand_ts(rng))
            lib2, cells2 = lib, cells
            if kind == "ts":
                lib.write_gds(p, timestamp=other)
            elif kind == "restamp":
                fs.put(p, base)
                gd.set_gdsii_timestamp(p, other)
            elif kind == "clock":
                lib.write_gds(p)
            elif kind == "order":
                lib.write_gds(p, cells=order, timestamp=ts)
            elif kind == "binary":
                fs.put(p, base)
                b = gd.get_binary_cells(p)
                k = rng.randint(0, len(order))
                lib.write_gds(p, cells=order[:k], timestamp=other, binary_cells=[b[n] for n in order[k:]])
            elif kind == "cellts":
                d = bytearray(base)
                for s, e in R.stamp_spans(base):
                    d[s:e] = bytes(rng.getrandbits(7) for _ in range(e - s))
                fs.put(p, bytes(d))
            else:
                nm = lib.name if kind == "writer" else "other" * rng.randint(1, 9)
                f = 1 if kind == "writer" else rng.choice([2, 1024, 0.5])
                w = gd.GdsWriter(p, nm, lib.unit * f, lib.precision * f, other)
                for n in (order if kind == "all" else names):
                    w.write_cell(cells[n], other if kind == "all" else ts)
                w.close()
            data = fs.get(p)
            h = self.hash(gd, data, res)
            res.evals += 1
            res.key("var", kind, len(names), len(data).bit_length())
            if data != base:
                res.case(base, data)
            if h != h0:
                res.violate("hash-differs", "same cell contents, variant %r: %s and %s" % (kind, h0, h))
                return
        # sensitivity
        for kind, seed in plan["chg"]:
            rng = util.rng_from(seed)
            d2 = {"name": dec["name"], "db_user": dec["db_user"], "db_meter": dec["db_meter"], "stamps": dec["stamps"],
                  "cells": [{"name": c["name"], "stamps": c["stamps"], "els": list(c["els"])} for c in dec["cells"]]}
            ref = R.encode(d2)
            cs = d2["cells"]
            if not cs:
                break
            i = rng.randrange(len(cs))
            what = kind
            if kind == "element":
                full = [c for c in cs if c["els"]]
                if not full:
                    continue
                what = change(rng.choice(full)["els"], rng)
            elif kind == "cellname":
                cs[i]["name"] = cs[i]["name"] + "x"
            elif kind == "dropcell":
                del cs[i]
            elif kind == "dupcell":
                cs.append(cs[i])
            elif kind == "addcell":
                cs.append({"name": "addedcell", "stamps": cs[0]["stamps"], "els": []})
            elif kind == "move":
                full = [c for c in cs if c["els"]]
                if len(cs) < 2 or not full:
                    continue
                a = rng.choice(full)
                b = rng.choice([c for c in cs if c is not a])
                b["els"].append(a["els"].pop())
            elif kind == "samecells":
                # contents exchanged between two cells
                if len(cs) < 2:
                    continue
                j = (i + 1) % len(cs)
                if cs[i]["els"] == cs[j]["els"]:
                    continue
                cs[i]["els"], cs[j]["els"] = cs[j]["els"], cs[i]["els"]
            new = R.encode(d2)
            a, b = R.decode(ref), R.decode(new)
            key = lambda d: sorted(c["raw"][28:] for c in d["cells"])
            if key(a) == key(b):
                continue
            ha, hb = self.hash(gd, ref, res), self.hash(gd, new, res)
            res.evals += 1
            res.key("chg", what, len(names), len(new).bit_length())
            res.case(ref, new)
            if ha == hb:
                res.violate("hash-equal", "cells differ (%s), hash %s for both" % (what, ha))
                return
        res.samples.append({"vars": plan["vars"], "chg": plan["chg"], "hash": h0})

    def hash(self, gd, data, res):
        io_ = self.io
        self.nfile += 1
        fs = simfs.SimFS(util.rng_from(self.plan_["seed"] + self.nfile), (), io_["short"], io_["eintr"], io_["buf"])
        fs.read_budget = 500 + 60 * len(data)
        simfs.current = fs
        p = simfs.ROOT + "/%d/h.gds" % self.nfile
        fs.put(p, data)
        if self.nfile % 3 == 0:
            p2 = util.as_path(self.plan_["path"], p)
        else:
            p2 = p
        h = gd.gdsii_hash(p2)
        eng = Engine()
        he = gd.gdsii_hash(p2, engine=eng)
        res.add(fs.fired)
        if he != h:
            res.violate("engine-content", "a SHA-1 engine supplied by the caller gave %s, the default one %s" % (he, h))
        used = hashlib.sha256()
        used.update(b"state")
        hs = gd.gdsii_hash(p2, used)
        want = hashlib.sha256(b"state" + b"".join(eng.parts)).hexdigest()
        if hs != want:
            res.violate("engine-content", "an engine with previous state: %s instead of %s" % (hs, want))
        if fs.get(p) != data:
            res.violate("hash-changed-file", "")
        return h


CHECK = C06()
