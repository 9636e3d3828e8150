"""Seeded search: executes plans in forked children, minimises violations,
writes replay files and evidence.

A plan is a JSON value and fully determines an execution; `Check.plan(rng)`
draws one from a seed.  A run returns a Result: violations plus statistics.
"""
import hashlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback
from random import Random

from . import boot

mono = time.monotonic
WALL = 90.0           # hard limit of one execution (it is far below a second)


class Result(object):
    def __init__(self):
        self.violations = []      # [kind, detail]
        self.faults = {}          # injected fault kind -> count
        self.stats = {}           # additive counters
        self.keys = set()         # hashes of distinct interleavings / states reached
        self.evals = 0            # property evaluations
        self.nontrivial = set()   # distinct nontrivial cases
        self.simtime = 0.0
        self.known = []
        self.trace = []
        self.samples = []
        self.digest = hashlib.sha256()

    def violate(self, kind, detail):
        self.violations.append([kind, str(detail)[:2000]])

    def add(self, d):
        for k, v in d.items():
            self.faults[k] = self.faults.get(k, 0) + v

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def key(self, *a):
        self.keys.add(hashlib.blake2b(repr(a).encode(), digest_size=8).hexdigest())

    def case(self, *a):
        self.nontrivial.add(hashlib.blake2b(repr(a).encode(), digest_size=8).hexdigest())

    def see(self, *a):
        """Feeds the execution's digest (determinism checks)."""
        self.digest.update(repr(a).encode())

    def dump(self):
        return {"v": self.violations, "f": self.faults, "s": self.stats, "k": sorted(self.keys),
                "e": self.evals, "n": sorted(self.nontrivial), "t": self.simtime, "d": self.digest.hexdigest(),
                "known": self.known, "trace": self.trace[-400:], "x": self.samples[:1]}


class Check(object):
    id = None
    title = ""
    level = "exploration"
    needs = ""
    quick = (200, 60.0)       # at most this many seeds, at most this many seconds
    thorough = (100000, 700.0)
    real = ""
    stub = ""
    key_measure = ""
    case_measure = ""
    assumptions = []

    def plan(self, rng):
        raise NotImplementedError

    def run(self, plan, res):
        raise NotImplementedError

    def shrinks(self, plan):
        return ()


def seeded(check, seed):
    return Random("%s/%d" % (check.id, seed))


def execute(check, plan):
    """Runs a plan in this process (a fresh child)."""
    res = Result()
    try:
        check.run(plan, res)
    except BaseException as e:  # an escape of the code under test, or a bug of the harness
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        tb = e.__traceback__
        inside = False
        while tb is not None:
            inside = inside or os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(boot.pkgdir + os.sep)
            tb = tb.tb_next
        res.violations.append(["unexpected-exception:" + type(e).__name__ if inside else "harness-error", text])
    return res.dump()


def isolated(check, plan, wall=WALL):
    """Runs a plan in a forked child; returns its result dict."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setpgid(0, 0)
            sys.stdout.flush()
            out = execute(check, plan)
            data = pickle.dumps(out)
            n = 0
            while n < len(data):
                n += os.write(w, data[n:n + 65536])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    deadline = mono() + wall
    status = None
    timed = False
    while True:
        left = deadline - mono()
        if left <= 0:
            timed = True
            os.kill(pid, signal.SIGKILL)
            try:
                os.killpg(pid, signal.SIGKILL)      # and what it started
            except OSError:
                pass
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        buf.append(chunk)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if timed:
        return dict(Result().dump(), v=[["hang", "no end after %.0f s" % wall]])
    if os.WIFSIGNALED(status) or os.WEXITSTATUS(status) != 0:
        why = "signal %d" % os.WTERMSIG(status) if os.WIFSIGNALED(status) else "exit %d" % os.WEXITSTATUS(status)
        return dict(Result().dump(), v=[["crash", "the process died: " + why]])
    return pickle.loads(b"".join(buf))


def alone(call):
    """The value of call() in a process of its own; None if that dies."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps((call(),))
            n = 0
            while n < len(data):
                n += os.write(w, data[n:n + 65536])
        except BaseException as e:
            text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
            os.write(w, pickle.dumps(text))
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    while True:
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        buf.append(chunk)
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        return None
    v = pickle.loads(b"".join(buf))
    if isinstance(v, str):
        raise RuntimeError("alone: " + v)
    return v[0]


def _worker(check, seeds, deadline, out, stop):
    for s in seeds:
        if mono() > deadline or stop.value:
            break
        plan = check.plan(seeded(check, s))
        d = isolated(check, plan)
        d["seed"] = s
        if d["v"]:
            d["plan"] = plan
        data = pickle.dumps(d)
        os.write(out, struct.pack(">I", len(data)))
        n = 0
        while n < len(data):
            n += os.write(out, data[n:n + 65536])


class _Flag(object):
    """One shared byte."""

    def __init__(self):
        import mmap
        self.m = mmap.mmap(-1, 1)

    @property
    def value(self):
        return self.m[0] != 0

    def set(self):
        self.m[0] = 1


def search(check, base, nseeds, seconds, jobs=None, stop_first=True, on_result=None):
    """Runs seeds base*10**7 + i for i < nseeds; yields result dicts."""
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    seeds = [base * 10 ** 7 + i for i in range(nseeds)]
    stop = _Flag()
    deadline = mono() + seconds
    pipes = {}
    pids = []
    for j in range(jobs):
        mine = seeds[j::jobs]
        if not mine:
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for q in pipes:
                    os.close(q)
                _worker(check, mine, deadline, w, stop)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        pipes[r] = bytearray()
        pids.append(pid)
    out = []
    while pipes:
        rd, _, _ = select.select(list(pipes), [], [], 5.0)
        for r in rd:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                os.close(r)
                del pipes[r]
                continue
            b = pipes[r]
            b.extend(chunk)
            while len(b) >= 4:
                n = struct.unpack(">I", bytes(b[:4]))[0]
                if len(b) < 4 + n:
                    break
                d = pickle.loads(bytes(b[4:4 + n]))
                del b[:4 + n]
                out.append(d)
                if on_result:
                    on_result(d)
                if d["v"] and stop_first:
                    stop.set()
    bad = 0
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        if st != 0:
            bad += 1
    if bad:
        raise SystemExit("%d workers failed" % bad)
    return sorted(out, key=lambda d: d["seed"])


# -- minimisation ------------------------------------------------------------
def paths_of_lists(v, pre=()):
    if isinstance(v, list):
        yield pre
        for i, x in enumerate(v):
            yield from paths_of_lists(x, pre + (i,))
    elif isinstance(v, dict):
        for k in sorted(v):
            yield from paths_of_lists(v[k], pre + (k,))


def get_at(v, path):
    for k in path:
        v = v[k]
    return v


def clone(v):
    return json.loads(json.dumps(v))


def generic_shrinks(plan, lists):
    """Removes chunks, then single items, from the named lists.  `lists` are
    paths; '*' matches every index."""
    def expand(v, path, pre=()):
        if not path:
            if isinstance(v, list):
                yield pre
            return
        k = path[0]
        if k == "*":
            if isinstance(v, list):
                for i in range(len(v)):
                    yield from expand(v[i], path[1:], pre + (i,))
        elif isinstance(v, dict) and k in v:
            yield from expand(v[k], path[1:], pre + (k,))
    for pat in lists:
        for p in list(expand(plan, pat)):
            n = len(get_at(plan, p))
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    q = clone(plan)
                    del get_at(q, p)[i:i + size]
                    yield q
                size = size // 2 if size > 1 else 0


def minimise(check, plan, kind, seconds=40.0, limit=400):
    deadline = mono() + seconds
    tries = 0
    best = plan
    progress = True
    while progress and mono() < deadline and tries < limit:
        progress = False
        for cand in check.shrinks(best):
            if mono() > deadline or tries >= limit:
                break
            if len(json.dumps(cand)) >= len(json.dumps(best)):
                continue
            tries += 1
            try:
                d = isolated(check, cand)
            except Exception:
                continue
            if any(v[0] == kind for v in d["v"]):
                best = cand
                progress = True
                break
    return best, tries


class Totals(object):
    def __init__(self):
        self.runs = 0
        self.evals = 0
        self.faults = {}
        self.stats = {}
        self.keys = set()
        self.cases = set()
        self.simtime = 0.0
        self.digest = hashlib.sha256()
        self.known = {}
        self.samples = []

    def add(self, d):
        self.runs += 1
        self.evals += d["e"]
        for k, v in d["f"].items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in d["s"].items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.keys.update(d["k"])
        self.cases.update(d["n"])
        self.simtime += d["t"]
        if d["x"] and len(self.samples) < 4:
            self.samples.append({"seed": d.get("seed"), "case": d["x"][0]})
        for k in d["known"]:
            self.known[k] = self.known.get(k, 0) + 1


def known_findings(pid):
    """Findings recorded in /verif/known_findings.jsonl (read only)."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    out = []
    try:
        with open(os.path.join(here, "known_findings.jsonl")) as f:
            for line in f:
                line = line.strip()
                if line:
                    e = json.loads(line)
                    if e.get("status") == "known" and e["property"] == pid:
                        out.append(e)
    except FileNotFoundError:
        pass
    return out


def main(check, tier, seed, replay_dir, evidence_path, build_s):
    t0 = mono()
    n, secs = check.quick if tier == "quick" else check.thorough
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    n = max(1, int(n * scale))
    known = known_findings(check.id)
    check.known = known
    tot = Totals()
    results = search(check, seed, n, secs)
    for d in results:
        tot.add(d)
        tot.digest.update(("%d:%s;" % (d["seed"], d["d"])).encode())
    bad = [d for d in results if d["v"]]
    violations = []
    code = 0
    if bad:
        d = bad[0]
        kind, detail = d["v"][0]
        again = isolated(check, d["plan"])
        if kind == "harness-error" and not any(v[0] != "harness-error" for x in bad for v in x["v"]):
            print("harness error at seed %d:\n%s" % (d["seed"], detail))
            return 2
        if kind == "harness-error":
            d = [x for x in bad if any(v[0] != "harness-error" for v in x["v"])][0]
            kind, detail = [v for v in d["v"] if v[0] != "harness-error"][0]
            again = isolated(check, d["plan"])
        exact = any(v[0] == kind for v in again["v"])
        best, tries = minimise(check, d["plan"], kind)
        final = isolated(check, best)
        fd = [v for v in final["v"] if v[0] == kind]
        path = os.path.join(replay_dir, "%s-%d.json" % (check.id, d["seed"]))
        os.makedirs(replay_dir, exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": check.id, "seed": d["seed"], "kind": kind, "detail": (fd or [[kind, detail]])[0][1],
                       "plan": best, "original_plan": d["plan"], "trace": final.get("trace", []),
                       "shrink_attempts": tries, "reproduced_at_once": exact,
                       "how": "/verif/run.sh replay " + path}, f, indent=1)
        print("seed %d: %s: %s" % (d["seed"], kind, (fd or [[kind, detail]])[0][1]))
        for x in bad[1:6]:
            print("  also seed %d: %s: %s" % (x["seed"], x["v"][0][0], x["v"][0][1][:200]))
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        violations.append({"seed": d["seed"], "kind": kind, "detail": detail[:500], "replay": path})
        code = 1
    for e in known:
        print("KNOWN-FINDING: property=%s %s" % (check.id, e["what"]))
    wall = mono() - t0
    write_evidence(check, tier, seed, tot, wall, violations, evidence_path, build_s, n)
    print("%s %s: %d runs, %d evaluations, %d distinct cases, %.1f s, digest %s" % (
        check.id, tier, tot.runs, tot.evals, len(tot.cases), wall, tot.digest.hexdigest()[:16]))
    return code


def write_evidence(check, tier, seed, tot, wall, violations, path, build_s, n):
    cov = {
        "evaluations": tot.evals,
        "distinct_nontrivial": len(tot.cases),
        "rule": check.case_measure,
        "samples": tot.samples,
        "runs": tot.runs,
        "seeds": {"base": seed, "first": seed * 10 ** 7, "planned": n, "per_run": 1},
        "runs_per_hour": int(tot.runs / wall * 3600) if wall else 0,
        "simulated_seconds": round(tot.simtime, 3),
        "faults_injected": dict(sorted(tot.faults.items())),
        "distinct_interleavings_or_states": len(tot.keys),
        "interleaving_measure": check.key_measure,
        "counters": dict(sorted(tot.stats.items())),
        "ran_real": check.real,
        "ran_stub": check.stub,
        "execution_digest": tot.digest.hexdigest(),
        "build_s": round(build_s, 2),
    }
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
          "wall_s": round(wall, 2), "assumptions": list(check.assumptions), "violations": len(violations)}
    if violations:
        cov["violations_found"] = violations
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)

