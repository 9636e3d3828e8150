"""C14: timestamps in files are the requested ones, or the clock's."""
import datetime

from .. import boot, refgds, simfs, spec as S, util
from ..runner import Check, clone, generic_shrinks

R = refgds
dt = boot.real_datetime


def six(t):
    return (t.year, t.month, t.day, t.hour, t.minute, t.second)


class C14(Check):
    id = "C14"
    title = "timestamps and the clock"
    quick = (15000, 40.0)
    thorough = (200000, 500.0)
    real = "gdspy exporters"
    stub = "clock (seeded readings with steps, jumps and step-backs), disk"
    key_measure = "distinct (sequence of operations, which of them read the clock, direction of clock movements)"
    case_measure = "a case is one written file with all its timestamps checked; non-trivial if it has at least one cell; distinct by bytes and clock readings"
    assumptions = ["the process's time zone is UTC, so that local and universal readings coincide"]

    def plan(self, rng):
        o = S.Opt(hugearr=0.0, big=0, cells=(0, 5), els=(0, 2), kinds=["poly", "label", "sref"])
        p = {"spec": S.gen(rng, o), "start": util.rand_ts(rng)[:1] + [rng.randint(1, 12), rng.randint(1, 28), 23, 59, rng.choice([0, 58, 59])],
             "step": rng.choice([0, 0.3, 1, 1, 61, 3600.5, 86400, -1, -7200])}
        p["start"][0] = max(5, min(9990, p["start"][0]))
        p["jumps"] = {str(rng.randint(0, 12)): rng.choice([-86400 * 400, 86400 * 366, -1, 1, 3600, -3600, 86400 * 365.25 * 3]) for _ in range(rng.choice([0, 1, 2, 3]))}
        ops = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(["write", "write", "writer", "writer", "cell", "retime", "binary"])
            ops.append({"k": k, "lib_ts": rng.choice([None, util.rand_ts(rng)]), "dest": rng.choice(["path", "stream"]),
                        "tz": rng.random() < 0.15, "micro": rng.choice([0, 0, 999999]),
                        "cells_ts": [rng.choice([None, None, util.rand_ts(rng)]) for _ in range(6)]})
        p["ops"] = ops
        return p

    def shrinks(self, plan):
        for q in generic_shrinks(plan, [("ops",)] + util.spec_lists()):
            S.fix(q["spec"])
            yield q
        for k, v in (("jumps", {}), ("step", 1)):
            if plan[k] != v:
                q = clone(plan)
                q[k] = v
                yield q

    def ts(self, t, op):
        if t is None:
            return None
        d = dt(*t, op["micro"])
        if op["tz"]:
            d = d.replace(tzinfo=datetime.timezone(datetime.timedelta(hours=5)))
        return d

    def run(self, plan, res):
        gd = boot.gdspy
        lib, cells = S.build(gd, plan["spec"])
        names = list(cells)
        clock = boot.clock
        clock.reset(dt(*plan["start"]), plan["step"], {int(k): v for k, v in plan["jumps"].items()})
        fs = simfs.SimFS()
        simfs.current = fs
        p = simfs.ROOT + "/t.gds"
        shape = []
        t0 = clock.now
        for op in plan["ops"]:
            k = op["k"]
            lt = self.ts(op["lib_ts"], op)
            expect = []    # per file: (lib window, [(name, window or exact or kept bytes)])
            dest = p if op["dest"] == "path" else S.MBytes()

            def called(fn):
                n0 = len(clock.readings)
                fn()
                return [six(x) for x in clock.readings[n0:]]
            ct = []
            kept = {}
            if k == "write":
                r = called(lambda: lib.write_gds(dest, timestamp=lt))
                w = [six(lt)] if lt is not None else r
                ct = [(n, w, lt is not None and r) for n in names]
                lw = w
            elif k == "writer":
                box = []
                r = called(lambda: box.append(gd.GdsWriter(dest, "lib", 1e-6, 1e-9, lt)))
                lw = [six(lt)] if lt is not None else r
                wr = box[0]
                for i, n in enumerate(names):
                    c = self.ts(op["cells_ts"][i % 6], op)
                    r = called(lambda: wr.write_cell(cells[n], c))
                    ct.append((n, [six(c)] if c is not None else r, False))
                wr.close()
            elif k == "cell":
                if not names:
                    continue
                c = self.ts(op["cells_ts"][0], op)
                dest = S.MBytes()
                r = called(lambda: cells[names[0]].to_gds(dest, 1000, c))
                data = bytes(dest.b)
                v = R.stamps(data[4:28])
                w = [six(c)] if c is not None else r
                res.evals += 1
                if v[0] != v[1] or v[0] not in w:
                    res.violate("cell-timestamp", "Cell.to_gds wrote %r, expected one of %r" % (v, w))
                    return
                continue
            elif k == "retime":
                lib.write_gds(p, timestamp=dt(1999, 1, 1))
                t = lt or dt(2005, 5, 5, 5, 5, 5)
                r = called(lambda: gd.set_gdsii_timestamp(p, t))
                dest = p
                lw = [six(t)]
                ct = [(n, [six(t)], False) for n in names]
            else:
                aux = simfs.ROOT + "/aux.gds"
                old = dt(1987, 6, 5, 4, 3, 2)
                lib.write_gds(aux, timestamp=old)
                b = gd.get_binary_cells(aux)
                h = len(names) // 2
                r = called(lambda: lib.write_gds(dest, cells=names[:h], timestamp=lt, binary_cells=[b[n] for n in names[h:]]))
                w = [six(lt)] if lt is not None else r
                lw = w
                ct = [(n, w, False) for n in names[:h]] + [(n, [six(old)], False) for n in names[h:]]
            data = fs.get(p) if dest is p else bytes(dest.b)
            dec = R.decode(data)
            res.evals += 1
            if names:
                res.case(data, [six(x) for x in clock.readings][-8:])
            res.count("timestamps", 1 + len(ct))
            shape.append((k, op["lib_ts"] is None, [x is None for x in op["cells_ts"][:len(names)]] if k == "writer" else None))
            for what, v, w in [("library", dec["stamps"], lw)] + [("cell %r" % c["name"], c["stamps"], x[1]) for c, x in zip(dec["cells"], ct)]:
                if v[0] != v[1]:
                    res.violate("fields-disagree", "%s of %s: %r and %r" % (what, k, v[0], v[1]))
                    return
                if v[0] not in w:
                    res.violate("wrong-timestamp", "%s of %s: %r, expected %s of %r" % (what, k, v[0], "one" if len(w) > 1 else "the value", w))
                    return
        ups = [b > a for a, b in zip(clock.readings, clock.readings[1:])]
        res.key(shape, ups[:6])
        res.add({"clock-jump": sum(1 for j in plan["jumps"] if int(j) < len(clock.readings)),
                 "clock-backwards": sum(1 for a, b in zip(clock.readings, clock.readings[1:]) if b < a), "clock-reading": len(clock.readings)})
        if clock.readings:
            res.simtime += abs((max(clock.readings) - min(clock.readings)).total_seconds())
        res.samples.append({"ops": [o["k"] for o in plan["ops"]], "start": plan["start"], "step": plan["step"], "jumps": plan["jumps"]})
        res.see([six(x) for x in clock.readings])


CHECK = C14()
