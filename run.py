"""Command line of the simulator.  Use run.sh, which picks the interpreter.

  run.sh check <id> [--tier quick|thorough] [--seed N]
  run.sh replay <file>         re-executes a replay file
  run.sh seed <id> <seed>      one execution, in full
  run.sh determinism [ids]     every execution twice, in different processes
  run.sh list
"""
import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))


def main(argv):
    cmd = argv[0] if argv else "list"
    args = [a for a in argv[1:] if not a.startswith("--")]
    opts = {}
    it = iter(argv[1:])
    pos = []
    for a in it:
        if a.startswith("--"):
            opts[a[2:]] = next(it)
        else:
            pos.append(a)
    args = pos
    if os.environ.get("PYTHONHASHSEED") is None or os.environ.get("VERIF_CHILD") is None:
        env = dict(os.environ, PYTHONHASHSEED=os.environ.get("VERIF_HASHSEED", "0"), VERIF_CHILD="1", PYTHONDONTWRITEBYTECODE="1",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONNOUSERSITE="1", TZ="UTC", LC_ALL="C.UTF-8")
        env.pop("PYTHONPATH", None)
        os.execve(sys.executable, [sys.executable, os.path.abspath(__file__)] + argv, env)
    sys.path.insert(0, HERE)
    t0 = time.monotonic()
    from sim import build, boot, runner
    scratch = os.environ.get("VERIF_BUILT")
    made = None
    if not scratch:
        scratch = made = build.build()
        os.environ["VERIF_BUILT"] = scratch
    build_s = time.monotonic() - t0
    try:
        boot.install(scratch)
        from sim import registry
        checks = registry.load()
        if cmd == "selftest":
            # builds the tree, loads it through the seams, runs one seed per check
            for i, c in sorted(checks.items()):
                d = runner.isolated(c, c.plan(runner.seeded(c, 1)))
                print(i, "loaded,", d["e"], "evaluations")
            return 0
        if cmd == "list":
            for i, c in sorted(checks.items()):
                print(i, c.title)
            return 0
        if cmd == "check":
            c = checks[args[0]]
            tier = opts.get("tier") or os.environ.get("VERIF_TIER") or "quick"
            seed = int(opts.get("seed") or os.environ.get("VERIF_SEED") or "1")
            ev = os.path.join(HERE, "evidence", c.id + ".json")
            return runner.main(c, tier, seed, os.path.join(HERE, "replays"), ev, build_s)
        if cmd == "replay":
            with open(args[0]) as f:
                rep = json.load(f)
            c = checks[rep["property"]]
            d = runner.isolated(c, rep["plan"])
            for k, v in d["v"]:
                print("%s: %s" % (k, v))
            for t in d["trace"]:
                print("   ", t)
            hit = any(k == rep["kind"] for k, _ in d["v"])
            print("digest", d["d"])
            if hit:
                print("VIOLATION property=%s replay=%s" % (c.id, os.path.abspath(args[0])))
                return 1
            print("not reproduced")
            return 0
        if cmd == "seed":
            c = checks[args[0]]
            plan = c.plan(runner.seeded(c, int(args[1])))
            if opts.get("plan"):
                print(json.dumps(plan, indent=1))
            d = runner.isolated(c, plan)
            for k, v in d["v"]:
                print("%s: %s" % (k, v))
            print({k: v for k, v in d.items() if k not in ("v", "k", "n", "trace")})
            return 1 if d["v"] else 0
        if cmd == "min":
            # minimises the first violation of one seed (development aid)
            c = checks[args[0]]
            plan = c.plan(runner.seeded(c, int(args[1])))
            d = runner.isolated(c, plan)
            if not d["v"]:
                print("no violation")
                return 0
            best, tries = runner.minimise(c, plan, d["v"][0][0])
            print(json.dumps(best), tries)
            for k, v in runner.isolated(c, best)["v"]:
                print("%s: %s" % (k, v))
            return 1
        if cmd == "program":
            # one user program, for C13: digests of its exports
            from sim import program, simfs
            from sim.checks import c13
            simfs.current = simfs.SimFS()
            out = program.run(boot.gdspy, json.loads(sys.stdin.read()))
            print(json.dumps([c13.digest(x) for x in out]))
            return 0
        if cmd == "digest":
            c = checks[args[0]]
            n = int(opts.get("n", "50"))
            for d in runner.search(c, int(opts.get("seed", "1")), n, 600, stop_first=False, jobs=int(opts.get("jobs", "8"))):
                print(d["seed"], d["d"], d["e"], len(d["k"]), sorted(d["f"].items()), len(d["v"]))
            return 0
        if cmd == "determinism":
            # every execution twice: other process, hash seed and number of workers
            import subprocess
            bad = 0
            for i in args or sorted(checks):
                outs = []
                for hs, jobs in (("0", "8"), ("7", "3")):
                    env = dict(os.environ, VERIF_HASHSEED=hs, VERIF_BUILT=scratch or made)
                    env.pop("PYTHONHASHSEED")
                    outs.append(subprocess.run([sys.executable, os.path.abspath(__file__), "digest", i, "--n", opts.get("n", "60"),
                                                "--seed", opts.get("seed", "1"), "--jobs", jobs], env=env, stdout=subprocess.PIPE).stdout.decode().splitlines())
                diff = [a for a, b in zip(*outs) if a != b]
                bad += len(diff) + (len(outs[0]) != len(outs[1]))
                print(i, len(outs[0]), "executions,", len(diff), "differ", diff[:2])
            return 1 if bad else 0
        if cmd == "survey":
            # every violation kind over many seeds (development aid)
            c = checks[args[0]]
            kinds = {}
            rs = runner.search(c, int(opts.get("seed", "1")), int(opts.get("n", "500")), float(opts.get("secs", "300")), stop_first="first" in opts)
            for d in rs:
                for k, v in d["v"]:
                    kinds.setdefault(k, []).append((d["seed"], v))
            for k, v in sorted(kinds.items()):
                print("%5d %s  e.g. seed %d: %s" % (len(v), k, v[0][0], v[0][1][-int(opts.get("w", "400")):]))
            tot = runner.Totals()
            for d in rs:
                tot.add(d)
            print("runs", tot.runs, "evals", tot.evals, "cases", len(tot.cases), "keys", len(tot.keys), "in %.1f s" % (time.monotonic() - t0))
            print("faults", tot.faults)
            print("stats", tot.stats)
            return 0
        print(__doc__)
        return 2
    finally:
        if made:
            shutil.rmtree(made, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
