"""C07: exports and queries leave the layout as it was, even when they fail."""
from .. import boot, kernel, observe, queries as Q, simfs, spec as S, steps, util
from ..runner import Check, clone, generic_shrinks

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError}
STREAM = ("gds", "svg", "write", "writer", "e.gds", "e.svg")
SHARING = ("copy", "deps", "depsr", "top", "str", "lstr", "liter")


class C07(Check):
    id = "C07"
    title = "exports and queries do not change the layout"
    quick = (8000, 60.0)
    thorough = (60000, 780.0)
    real = "gdspy, its compiled extension, io buffering layers"
    stub = "disk, clock, user callbacks, caller streams; interrupts and failing allocations delivered at chosen points"
    key_measure = "distinct (query, fault kind, place of the fault) combinations that actually struck"
    case_measure = "a case is one query on one layout with its fault; non-trivial if a fault struck or a result was modified by the caller; distinct by layout, query and fault"
    assumptions = ["interrupts are delivered at line boundaries of gdspy's own code, as CPython delivers signals between bytecodes of the eval loop"]

    def plan(self, rng):
        p = {"spec": S.gen(rng, Q.options(cells=(1, 4), els=(1, 4)))}
        eps = []
        for q in Q.gen(rng, rng.randint(2, 6)):
            kinds = ["none", "mutate", "irq", "irq", "hook", "hook", "alloc", "alloc"]
            if q["op"] in STREAM:
                kinds += ["stream"] * 4
            if q["op"] == "wpath":
                kinds += ["disk"] * 6
            f = {"kind": rng.choice(kinds), "at": rng.random(), "exc": rng.choice(sorted(EXC)),
                 "disk": rng.choice(["open", "write", "close"]), "n": rng.choice([1, 1, 2])}
            eps.append({"q": q, "f": f})
        p["eps"] = eps
        p["final"] = Q.gen(rng, 3)
        return p

    def shrinks(self, plan):
        for q in generic_shrinks(plan, [("eps",), ("final",)] + util.spec_lists()):
            S.fix(q["spec"])
            yield q
        for i, e in enumerate(plan["eps"]):
            if e["f"]["kind"] != "none":
                q = clone(plan)
                q["eps"][i]["f"]["kind"] = "none"
                yield q
        yield from util.simplify_elements(plan)

    def run(self, plan, res):
        gd = boot.gdspy
        fs = simfs.SimFS()
        simfs.current = fs
        steps.install(fine=True)
        hooks = Hook()
        lib, cells = S.build(gd, plan["spec"], S.Hooks(hooks.before))
        base = observe.library(lib)
        res.see(len(repr(base)))
        for e in plan["eps"]:
            q, f = e["q"], e["f"]
            golden, n = self.golden(gd, plan["spec"], q)
            label = "%s.%s" % (q["w"], q["op"])
            struck = self.strike(gd, lib, cells, q, f, n, fs, hooks, golden, res, label)
            if struck is None:
                return
            res.see(label, f["kind"], struck, n)
            if struck:
                res.key(label, f["kind"], round(f["at"], 1))
                res.case(plan["spec"], q, f)
            res.evals += 2
            d = observe.diff(base, observe.library(lib))
            if d:
                res.violate("layout-changed", "after %s with %s: %s" % (label, f["kind"] if struck else "no fault", d))
                return
            again = Q.guarded(gd, lib, cells, q, Q.Ctx("g"))
            d = observe.diff(golden, again)
            if d:
                res.violate("retry-differs", "%s after %s: %s" % (label, f["kind"] if struck else "no fault", d))
                return
        for q in plan["final"] + [{"w": "lib", "op": "write", "i": 0, "j": 0, "d": None, "f": True}]:
            golden, n = self.golden(gd, plan["spec"], q)
            res.evals += 1
            d = observe.diff(golden, Q.guarded(gd, lib, cells, q, Q.Ctx("g")))
            if d:
                res.violate("later-answer-differs", "%s.%s: %s" % (q["w"], q["op"], d))
                return
        res.samples.append({"episodes": [[e["q"]["w"] + "." + e["q"]["op"], e["f"]["kind"]] for e in plan["eps"]]})

    def golden(self, gd, spec, q):
        """The answer of a layout never touched before, and how long it took."""
        hook = Hook()
        lib, cells = S.build(gd, spec, S.Hooks(hook.before))
        hook.n = 0
        ctx = Q.Ctx("g")
        k = kernel.Kernel()
        k.arm(0)
        with steps.Steps() as s:
            v = Q.guarded(gd, lib, cells, q, ctx)
        n = {"irq": s.n, "hook": hook.n, "alloc": k.disarm()[0], "stream": sum(x.n for x in ctx.streams)}
        return v, n

    def strike(self, gd, lib, cells, q, f, n, fs, hooks, golden, res, label):
        kind = f["kind"]
        if kind in ("hook", "alloc", "stream") and not n[kind]:
            kind = "irq"        # nothing of that sort happens in this query
        ctx = Q.Ctx("g")
        struck = 0
        where = int(f["at"] * n.get(kind, 0))
        exc = EXC[f["exc"]]
        failed = None
        out = None
        k = kernel.Kernel()
        st = steps.Steps()
        if kind == "irq":
            st.at, st.exc = 1 + where, exc
        elif kind == "hook":
            hooks.arm(where + 1 if n["hook"] else 0, exc, f["n"])
        elif kind == "stream":
            ctx.fail_at = where
        elif kind == "disk":
            fs.faults = [self.disk(f, fs, golden)]
        elif kind == "alloc":
            k.arm(where + 1 if n["alloc"] else 0, f["n"])
        try:
            with st:
                out = Q.run(gd, lib, cells, q, ctx)
        except (Exception, KeyboardInterrupt) as e:
            failed = e
        finally:
            hooks.arm(0)
            hit = sum(fs.fired.values())
            fs.faults, fs.fired = [], {}
            nk = k.disarm()
        if kind == "irq":
            struck = st.fired
        elif kind == "hook":
            struck = hooks.fired
        elif kind == "stream":
            struck = sum(s.fired for s in ctx.streams)
        elif kind == "disk":
            struck = hit
        elif kind == "alloc":
            struck = nk[1]
        if struck:
            res.add({{"irq": "interrupt", "hook": "user callback raises", "stream": "stream write error", "disk": "disk error",
                      "alloc": "allocation failure in the extension"}[kind]: 1})
        res.count("queries")
        if not struck and failed is None and out is not None and kind != "mutate":
            res.evals += 1
            d = observe.diff(golden, out)
            if d:
                res.violate("answer-differs", "%s: %s" % (label, d))
                return None
        if kind == "mutate" and failed is None:
            struck = mutate(gd, ctx.raw, q["op"] in SHARING)
            if struck:
                res.add({"result modified by the caller": 1})
        return struck

    def disk(self, f, fs, golden):
        n = len(golden) if isinstance(golden, bytes) else 100
        if f["disk"] == "open":
            return {"op": "open", "n": fs.opens + 1, "err": "EACCES"}
        if f["disk"] == "close":
            return {"op": "close", "err": "EIO"}
        return {"op": "write", "at": int(f["at"] * n), "err": "ENOSPC", "sticky": True}


class Hook(object):
    """Counts the calls of user callbacks; fails from the n-th on."""

    def __init__(self):
        self.n = 0
        self.fired = 0
        self.at = 0
        self.exc = None
        self.len = 1

    def arm(self, at, exc=None, length=1):
        if at:
            self.fired = 0
        self.n, self.at, self.exc, self.len = 0, at, exc, length

    def before(self, name):
        self.n += 1
        if self.at and self.at <= self.n < self.at + self.len:
            self.fired += 1
            raise self.exc("user code")


def mutate(gd, v, sharing, depth=0):
    """Overwrites everything in a result; returns how many objects."""
    import numpy
    n = 0
    if depth > 8:
        return 0
    if isinstance(v, numpy.ndarray):
        if v.flags.writeable and v.dtype.kind in "fi":
            v += 977
            return 1
        return 0
    if isinstance(v, dict):
        for x in list(v.values()):
            n += mutate(gd, x, sharing, depth + 1)
        v.clear()
        return n + 1
    if isinstance(v, (list, tuple)):
        for x in v:
            n += mutate(gd, x, sharing, depth + 1)
        if isinstance(v, list):
            del v[:]
            n += 1
        return n
    if isinstance(v, set):
        v.clear()
        return 1
    if hasattr(v, "references") and hasattr(v, "labels"):
        if sharing and depth:
            return 0           # a cell of the layout itself
        for name in ("polygons", "paths", "labels", "references"):
            l = getattr(v, name)
            if not sharing:
                for x in l:
                    n += mutate(gd, x, sharing, depth + 1)
            del l[:]
        v.name = v.name + "?"
        return n + 1
    if sharing or isinstance(v, (str, bytes, int, float)) or v is None:
        return 0
    if hasattr(v, "properties"):
        v.properties[123] = "changed"
        n += 1
    for a in ("layers", "datatypes"):
        if isinstance(getattr(v, a, None), list):
            l = getattr(v, a)
            for i in range(len(l)):
                l[i] = l[i] + 5
            n += 1
    if hasattr(v, "ref_cell"):
        v.origin = (9999, 8888)
        v.rotation = 17
        return n + 1
    if isinstance(getattr(v, "polygons", None), list):
        n += mutate(gd, v.polygons, sharing, depth + 1)
    for a in ("points", "widths", "offsets", "position"):
        x = getattr(v, a, None)
        if isinstance(x, numpy.ndarray):
            n += mutate(gd, x, sharing, depth + 1)
    if hasattr(v, "translate") and not hasattr(v, "polygons"):
        v.translate(1000, 500)
        n += 1
    if hasattr(v, "text"):
        v.text = "changed"
        v.layer += 1
    return n


CHECK = C07()
