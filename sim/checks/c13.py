"""C13: the same program writes the same bytes."""
import gc
import hashlib
import json
import os
import random
import subprocess
import sys

from .. import boot, kernel, observe, program as P, sched, simfs, spec as S, util
from ..runner import Check, clone, generic_shrinks

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class C13(Check):
    id = "C13"
    title = "the same program writes the same bytes"
    quick = (6000, 60.0)
    thorough = (60000, 780.0)
    real = "gdspy and its compiled extension"
    stub = "disk, clock, identity hashes and order of fresh memory (seeded), thread scheduler; string hash seeds by running whole programs in other processes"
    key_measure = "distinct (environment changes in force, export) combinations"
    case_measure = "a case is one export of one program under a changed environment; non-trivial if the export wrote something; distinct by program, export and environment"
    assumptions = ["the program itself does not iterate over sets"]

    def plan(self, rng):
        p = {"prog": P.gen(rng), "envs": []}
        for _ in range(rng.randint(1, 3)):
            e = {}
            if rng.random() < 0.7:
                e["hash"] = rng.randrange(10 ** 6)
            if rng.random() < 0.5:
                e["fill"] = rng.choice([0, 0xff, 0xa5, 1])
            if rng.random() < 0.5:
                e["clock"] = [rng.randint(1971, 2037), rng.randint(0, 10 ** 6)]
            if rng.random() < 0.4:
                e["noise"] = rng.randrange(10 ** 6)
            if rng.random() < 0.3:
                e["junk"] = rng.randrange(10 ** 6)
            if rng.random() < 0.25:
                e["switches"] = sched.gen_switches(rng, 2, rng.choice([20, 100, 400]))
            p["envs"].append(e)
        if rng.random() < 0.12:
            p["envs"].append({"process": rng.randrange(1, 10 ** 6)})
        return p

    def shrinks(self, plan):
        if len(plan["envs"]) > 1:
            for i in range(len(plan["envs"])):
                q = clone(plan)
                del q["envs"][i]
                yield q
        for i, e in enumerate(plan["envs"]):
            for k in e:
                if len(e) > 1:
                    q = clone(plan)
                    del q["envs"][i][k]
                    yield q
        for q in generic_shrinks(plan, [("prog", "exports"), ("prog", "edits")] + util.spec_lists(("prog", "spec"))):
            S.fix(q["prog"]["spec"])
            if q["prog"]["spec"]["cells"] and q["prog"]["exports"]:
                yield q

    def run(self, plan, res):
        gd = boot.gdspy
        simfs.current = simfs.SimFS()
        boot.hashes.install(random.Random(1))
        golden = P.run(gd, plan["prog"])
        res.see(golden)
        for x, v in zip(plan["prog"]["exports"], golden):
            res.count("exports that %s" % ("raise" if isinstance(v, tuple) and v[:1] == ("raised",) else "write" if v else "are empty"))
        for n, e in enumerate(plan["envs"]):
            res.add({"environment: " + {"hash": "memory layout", "fill": "contents of fresh memory", "clock": "wall clock", "noise": "earlier exports",
                                        "junk": "allocation history", "switches": "thread schedule", "process": "other process and string hashes"}[k]: 1 for k in e})
            if "process" in e:
                outs = [self.elsewhere(plan["prog"], e["process"])]
            else:
                outs = self.under(gd, plan["prog"], e, n, res)
            for out in outs:
                if "process" in e:
                    same = [digest(x) for x in golden]
                else:
                    same = golden
                for x, a, b in zip(plan["prog"]["exports"], same, out):
                    res.evals += 1
                    d = observe.diff(a, b)
                    if d:
                        res.violate("differs", "%s with %s: %s" % (x["x"], " and ".join(sorted(e)), d))
                        return
                    res.key(sorted(k for k in e), x["x"], x["f"])
                    if a and e:
                        res.case(plan["prog"]["spec"], plan["prog"]["edits"], x, e)
        res.samples.append({"exports": [x["x"] for x in plan["prog"]["exports"]], "environments": [sorted(e) for e in plan["envs"]]})

    def under(self, gd, prog, e, n, res):
        keep = []
        if "hash" in e:
            boot.hashes.install(random.Random(e["hash"]))
        if "fill" in e:
            kernel.fill(e["fill"])
        if "clock" in e:
            boot.clock.reset(boot.real_datetime(e["clock"][0], 1, 1) + boot._dt.timedelta(seconds=e["clock"][1]), 1.5)
        if "noise" in e:
            other = P.gen(random.Random(e["noise"]))
            P.run(gd, other, "noise%d-" % n)
        if "junk" in e:
            r = random.Random(e["junk"])
            keep = [bytearray(r.randrange(16, 4000)) for _ in range(r.randrange(2000))]
            del keep[::2]
            gc.disable()
        try:
            if "switches" in e:
                s = sched.Sched(e["switches"])
                out = s.run([lambda: P.run(gd, prog, "a%d-" % n), lambda: P.run(gd, prog, "b%d-" % n)])
                res.add({"preemption": s.preempted})
                res.see(s.trace)
                if s.dead:
                    res.violate("deadlock", s.dead)
                    return []
                for kind, v in out:
                    if kind == "raised":
                        raise v
                return [v for kind, v in out]
            return [P.run(gd, prog, "e%d-" % n)]
        finally:
            kernel.fill(-1)
            gc.enable()
            del keep

    def elsewhere(self, prog, seed):
        """The same program in a process with other string hashes."""
        env = dict(os.environ, PYTHONHASHSEED=str(seed % 4294967295), VERIF_CHILD="1")
        r = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), "program"], input=json.dumps(prog).encode(), env=env, stdout=subprocess.PIPE, timeout=80)
        if r.returncode:
            raise AssertionError("program failed: %d" % r.returncode)
        return json.loads(r.stdout.decode().splitlines()[-1])


def digest(v):
    return hashlib.sha256(repr(v).encode()).hexdigest()


CHECK = C13()
