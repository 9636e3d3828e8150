"""C08: concurrent readers of one layout."""
from .. import boot, observe, queries as Q, sched, simfs, spec as S, util
from ..runner import Check, clone, generic_shrinks


class C08(Check):
    id = "C08"
    title = "concurrent readers"
    quick = (9000, 70.0)
    thorough = (80000, 780.0)
    real = "gdspy, real threads, real io buffering layers"
    stub = "thread scheduling (seeded, one thread at a time), disk, clock"
    key_measure = "distinct interleavings: the sequence of (event count, from, to) hand-overs actually taken"
    case_measure = "a case is one set of readers on one layout under one interleaving; non-trivial if at least one preemption happened inside a reader; distinct by layout, readers and hand-overs"
    assumptions = ["threads switch at function entry, return from calls, backward jumps, starts of source lines, and inside stream operations (every place where CPython 3.12 can switch, and more); the extension module holds the interpreter lock throughout"]

    def plan(self, rng):
        o = Q.options()
        p = {"spec": S.gen(rng, o)}
        n = rng.choice([2, 2, 2, 3, 4])
        p["readers"] = [Q.gen(rng, rng.randint(1, 4)) for _ in range(n)]
        if rng.random() < 0.5:
            # the same question asked at the same time
            p["readers"][1] = clone(p["readers"][0])
        p["warm"] = Q.gen(rng, rng.choice([0, 0, 0, 1, 2]))
        p["switches"] = sched.gen_switches(rng, n, rng.choice([30, 300, 3000, 10000]))
        p["rounds"] = [[]]
        x = rng.random()
        if x < 0.6:
            # preemption at places of the code, whatever the time spent there
            p["switches"] = []
            p["rounds"] = [sched.gen_sites(rng, n)]
        if x < 0.4:
            # a small layout, one question, many schedules: every place of the code gets its turn
            p["readers"] = [Q.gen(rng, 1) for _ in range(n)]
            if rng.random() < 0.5:
                p["readers"][0][0].update(w="lib", op=rng.choice(["write", "writer", "wpath"]))
            p["readers"][1] = clone(p["readers"][0])
            keep = rng.choice([1, 1, 2])
            for c in p["spec"]["cells"]:
                # (kinds of elements have equal chances)
                left = []
                while c["els"] and len(left) < keep:
                    kind = rng.choice(sorted(set(e["k"] for e in c["els"])))
                    e = rng.choice([x for x in c["els"] if x["k"] == kind])
                    c["els"].remove(e)
                    left.append(e)
                c["els"] = left
            S.fix(p["spec"])
            p["rounds"] = [sched.gen_sites(rng, n) for _ in range(16)]
        return p

    def shrinks(self, plan):
        for q in generic_shrinks(plan, [("readers",), ("readers", "*"), ("warm",), ("switches",), ("rounds",), ("rounds", "*")] + util.spec_lists()):
            S.fix(q["spec"])
            if len(q["readers"]) < 1:
                continue
            yield q
        yield from util.simplify_elements(plan)

    def run(self, plan, res):
        gd = boot.gdspy
        fs = simfs.SimFS()
        simfs.current = fs
        fs.yield_point = lambda what: sched.io_point()
        # alone
        alone, places = [], []
        for i, r in enumerate(plan["readers"]):
            lib, cells = S.build(gd, plan["spec"])
            ctx = Q.Ctx("a%d" % i)
            for q in plan["warm"]:
                Q.guarded(gd, lib, cells, q, Q.Ctx("w"))
            v, where = sched.record(lambda: [Q.guarded(gd, lib, cells, q, ctx) for q in r])
            alone.append(v)
            places.append(where)
        for sites in plan["rounds"]:
            if not self.together(plan, gd, sites, alone, places, res):
                return

    def together(self, plan, gd, sites, alone, places, res):
        # together
        lib, cells = S.build(gd, plan["spec"])
        for q in plan["warm"]:
            Q.guarded(gd, lib, cells, q, Q.Ctx("w"))
        before = observe.library(lib)
        s = sched.Sched(plan["switches"], sched.place_sites([[a % len(alone), b, c, d, e] for a, b, c, d, e in sites], places))
        progs = []
        for i, r in enumerate(plan["readers"]):
            def prog(i=i, r=r):
                ctx = Q.Ctx("t%d" % i)
                return [Q.guarded(gd, lib, cells, q, ctx) for q in r]
            progs.append(prog)
        out = s.run(progs)
        res.trace = (res.trace or []) + [list(t) for t in s.trace]
        res.key(s.trace)
        res.add({"preemption": s.preempted})
        res.count("scheduling points", s.steps)
        res.simtime += s.steps * 1e-6
        res.see(s.trace, s.steps)
        if s.preempted:
            res.case(plan["spec"], plan["readers"], s.trace)
        if s.dead:
            res.violate("deadlock", s.dead)
            return False
        for i, (kind, v) in enumerate(out):
            if kind == "raised":
                raise v
            for q, a, b in zip(plan["readers"][i], alone[i], v):
                res.evals += 1
                if a is not None:
                    res.count("queries")
                d = observe.diff(a, b)
                if d:
                    res.violate("reader-differs", "reader %d, %s.%s: %s" % (i, q["w"], q["op"], d))
                    return False
        d = observe.diff(before, observe.library(lib))
        res.evals += 1
        if d:
            res.violate("layout-changed", d)
            return False
        # and afterwards, alone again
        for i, r in enumerate(plan["readers"]):
            ctx = Q.Ctx("b%d" % i)
            for q, a in zip(r, alone[i]):
                res.evals += 1
                d = observe.diff(a, Q.guarded(gd, lib, cells, q, ctx))
                if d:
                    res.violate("later-reader-differs", "%s.%s: %s" % (q["w"], q["op"], d))
                    return False
        res.samples.append({"readers": [[q["w"] + "." + q["op"] for q in r] for r in plan["readers"]], "handovers": len(s.trace), "points": s.steps})
        return True


CHECK = C08()
