"""C10: a failed or interrupted path or curve evaluation is not remembered."""
import copy
import warnings

import numpy

from .. import boot, kernel, observe, paths as P, simfs, steps
from ..runner import Check, clone, generic_shrinks

EXC = {"RuntimeError": RuntimeError, "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "StopIteration": StopIteration, "OSError": OSError}
STREAMS = ("gds", "svg", "cell")


class C10(Check):
    id = "C10"
    title = "failed evaluations of paths and curves are not remembered"
    quick = (9000, 70.0)
    thorough = (120000, 800.0)
    real = "gdspy and its compiled extension"
    stub = "user functions, caller streams; failures of user functions, allocations and writes, interrupts and warnings raised as errors, delivered at chosen points"
    key_measure = "distinct (kind of path, last failed operation with its fault, next operation) triples"
    case_measure = "a case is one evaluation after a history, or one comparison of a path moved while it was built with one moved afterwards; non-trivial if a failure struck or another evaluation took place before it; distinct by path, steps so far and evaluation"
    assumptions = ["interrupts are delivered at line boundaries during evaluations; construction steps fail through their arguments and user functions"]

    def plan(self, rng):
        k = rng.choice(P.KINDS)
        b = P.gen_base(rng, k)
        h = []
        if rng.random() < 0.3 and k != "curve":
            # moved while it is built
            for _ in range(rng.randint(3, 8)):
                s = P.gen_step(rng, k, b["n"]) if rng.random() < 0.55 else P.gen_transform(rng, k)
                s.pop("bad", None)
                h.append({"op": "step", "s": s})
            if k == "robust" and b["n"] > 1 and rng.random() < 0.3:
                # parts that point each to its own side of an axis
                at = rng.randint(0, len(h))
                h[at:at] = [{"op": "step", "s": s} for s in (
                    {"s": "segment", "p": [rng.randint(200, 400), rng.randint(-30, 30)], "rel": True, "o": [rng.randint(-90, 90) for _ in range(b["n"])]},
                    {"t": "rotate", "v": rng.choice([3.14, -3.1, 3.0, 1.57]), "c": [0, 0]},
                    {"s": "turn", "r": rng.randint(100, 400), "a": rng.choice(["l", "r", 0.7, -1.1])})]
            return {"b": b, "h": h, "order": rng.random(), "moves": 1}
        for _ in range(rng.randint(2, 9)):
            x = rng.random()
            if x < 0.42 or not h:
                s = P.gen_step(rng, k, b["n"])
                o = {"op": "step", "s": s}
                if rng.random() < 0.3:
                    o["f"] = self.fault(rng, "cb")
            elif x < 0.54 and k != "curve":
                o = {"op": "step", "s": P.gen_transform(rng, k)}
            elif x < 0.6:
                o = {"op": "fork", "swap": rng.random() < 0.5}
            else:
                o = {"op": "eval", "e": rng.choice(P.EVALS[k])}
                x = rng.random()
                if x < 0.7:
                    o["f"] = self.fault(rng, rng.choice(["cb", "cb", "irq", "irq", "alloc", "warn", "stream"]))
            h.append(o)
        return {"b": b, "h": h, "order": rng.random()}

    def fault(self, rng, kind):
        return {"kind": kind, "at": rng.random(), "exc": rng.choice(sorted(EXC)), "n": rng.choice([1, 1, 2])}

    def shrinks(self, plan):
        yield from generic_shrinks(plan, [("h",)])
        for i, o in enumerate(plan["h"]):
            if "f" in o:
                q = clone(plan)
                del q["h"][i]["f"]
                yield q
            for a in ("w", "o", "bad"):
                if a in o.get("s", ()):
                    q = clone(plan)
                    del q["h"][i]["s"][a]
                    yield q
            if isinstance(o.get("s", {}).get("ps"), list) and len(o["s"]["ps"]) > 1:
                q = clone(plan)
                q["h"][i]["s"]["ps"].pop()
                yield q
        b = plan["b"]
        if b["n"] > 1:
            q = clone(plan)
            q["b"]["n"] = 1
            for a in ("l", "d", "w", "o", "e", "c", "br"):
                if isinstance(b.get(a), list):
                    q["b"][a] = b[a][:1]
            yield q
        for a in ("e", "c"):
            for i in range(b["n"] if a in b else 0):
                v = {"e": "flush", "c": "natural"}[a]
                if b[a][i] != v:
                    q = clone(plan)
                    q["b"][a][i] = v
                    yield q

    # -- execution
    def run(self, plan, res):
        gd = boot.gdspy
        simfs.current = simfs.SimFS()
        b = plan["b"]
        steps.install(fine=True)
        hook = Hook()
        funcs = P.Funcs(hook.before)
        live = [(P.create(gd, b, funcs), [])]      # path, successful steps
        evals = 0
        struck = None
        last = "-"
        for o in plan["h"]:
            path, done = live[0]
            f = o.get("f")
            if o["op"] == "fork":
                if len(live) < 3:
                    live.append((copy.deepcopy(path), list(done)))
                    if o["swap"]:
                        live.insert(0, live.pop())
                else:
                    live.append(live.pop(0))
                continue
            name = o["s"].get("s") or o["s"].get("t") if o["op"] == "step" else o["e"]
            what = "%s.%s" % (b["k"], name)
            if o["op"] == "step":
                n = self.count(gd, b, done, lambda p, fn: P.apply(p, b, o["s"], fn)) if f else (0, 0, 0, 0)
                at = 1 + int(f["at"] * n[0]) if f and n[0] else None
                with hook.arm(at, f and f["exc"]):
                    err = self.attempt(lambda: P.apply(path, b, o["s"], funcs))
                if hook.fired:
                    res.add({"user function raises " + f["exc"] + " in a step": 1})
                    d = reached(err, EXC[f["exc"]])
                    if d:
                        res.violate("swallowed", "%s: %s" % (what, d))
                        return
                if err is None:
                    done.append(o["s"])
                else:
                    if "bad" in o["s"] and not hook.fired:
                        res.add({"rejected step": 1})
                    elif not hook.fired:
                        res.count("steps that cannot be done")
                    struck = what + (".cb" if hook.fired else ".bad")
                res.see(what, type(err).__name__)
            else:
                golden, n = self.golden(gd, b, done, o["e"])
                fired = False
                err = None
                got = None
                kind = f["kind"] if f else None
                exc = EXC[f["exc"]] if f else None
                if kind == "cb" and n[0]:
                    with hook.arm(1 + int(f["at"] * n[0]), f["exc"], f["n"]):
                        got, err = self.answer(gd, path, b, o["e"])
                    fired = hook.fired
                elif kind == "irq" and n[1]:
                    exc = exc if f["exc"] in ("KeyboardInterrupt", "MemoryError") else KeyboardInterrupt
                    st = steps.Steps(at=1 + int(f["at"] * n[1]), exc=exc)
                    with st:
                        got, err = self.answer(gd, path, b, o["e"])
                    fired = st.fired
                elif kind == "alloc" and n[2]:
                    exc = MemoryError
                    kn = kernel.Kernel()
                    kn.arm(1 + int(f["at"] * n[2]), f["n"])
                    got, err = self.answer(gd, path, b, o["e"])
                    fired = kn.disarm()[1] > 0
                    if fired and err is None and observe.diff(golden, got) is None:
                        fired = False       # made up for
                elif kind == "warn":
                    exc = UserWarning
                    with warnings.catch_warnings():
                        warnings.simplefilter("error")
                        got, err = self.answer(gd, path, b, o["e"])
                    fired = isinstance(err, Warning)
                    if fired:
                        exc = type(err)
                elif kind == "stream" and o["e"] in STREAMS and n[3]:
                    exc = OSError
                    try:
                        got = P.evaluate(gd, path, b, o["e"], None, int(f["at"] * n[3]))
                    except Exception as e:
                        err = e
                    fired = True
                else:
                    got, err = self.answer(gd, path, b, o["e"])
                res.evals += 1
                if fired:
                    res.add({"%s in an evaluation" % {"cb": "user function raises", "irq": "interrupt", "alloc": "failed allocation",
                                                      "warn": "warning as error", "stream": "failed write"}[kind]: 1})
                    d = reached(err, exc)
                    if d:
                        res.violate("swallowed", "%s with %s: %s" % (what, kind, d))
                        return
                    struck = "%s.%s" % (what, kind)
                    res.see(what, kind, f["exc"])
                    last = struck
                    evals += 1
                    continue
                d = observe.diff(golden, ("raised", type(err).__name__) if err is not None else got)
                if d:
                    res.violate("evaluation", "%s after %s: %s" % (what, self.tale(plan, o), d))
                    return
                if struck or evals:
                    res.case(b, done, o["e"], struck)
                res.key(struck or "-", last, what)
                res.see(what, got)
                evals += 1
            last = what
        # in the end, everything
        for i, (path, done) in enumerate(live):
            d = self.moved(gd, b, done, res)
            if d:
                res.violate("transformed", "%s after %s: %s" % (b["k"], self.tale(plan), d))
                return
            if plan.get("moves"):
                continue
            ops = list(P.FULL[b["k"]])
            if plan["order"] > 0.5:
                ops.reverse()
            if b["k"] == "curve":
                ops = P.FULL["curve"]
            for op in ops:
                golden, _ = self.golden(gd, b, done, op)
                got, err = self.answer(gd, path, b, op)
                res.evals += 1
                d = observe.diff(golden, ("raised", type(err).__name__) if err is not None else got)
                if d:
                    res.violate("evaluation", "final %s.%s%s after %s: %s" % (b["k"], op, " of a copy" if i else "", self.tale(plan), d))
                    return
                if struck or evals:
                    res.case(b, done, op, struck)
                res.key(struck or "-", last, "final " + op)
                res.see(op, got)
        res.samples.append({"path": b["k"], "history": [(o["s"].get("s") or o["s"].get("t")) if o["op"] == "step" else o.get("e", "copy") for o in plan["h"]],
                            "last failure": struck})

    def moved(self, gd, b, done, res):
        """A path moved while it was built is the one built first and moved
        afterwards."""
        if b["k"] == "curve" or not any("t" in s for s in done):
            return None
        probe = {"s": "segment", "len": 70, "dir": None, "ax": 0, "l": 0, "d": 0} if b["k"] == "path" else {"s": "segment", "p": [50, 20], "rel": True}
        fr = P.frames(b, done + [probe])
        if fr is None:
            return None
        built, moves, last = fr
        one = self.fresh(gd, b, done + [probe])
        funcs = P.Funcs()
        two = P.create(gd, b, funcs)
        try:
            for s in built:
                if b["k"] == "flex":
                    two.tolerance = s["tol"]
                P.apply(two, b, s, funcs)
            if b["k"] == "flex":
                two.tolerance = b["tol"]
        except steps.Hang:
            raise
        except Exception as e:
            return "built in place: %s: %s" % (type(e).__name__, e)
        for s in moves:
            P.apply(two, b, s, funcs)
        x, y = P.landmarks(one, b), P.landmarks(two, b)
        res.evals += 1
        if x is None or y is None:
            return None
        size = max([1.0] + [float(numpy.abs(v).max()) for v in x.values() if v.size])
        for k in x:
            if x[k].shape != y[k].shape:
                res.count("sampled otherwise when built in place")
                return None
            if x[k].size and not float(numpy.abs(x[k] - y[k]).max()) <= 1e-6 * size:
                return "%s is %s, but %s if built first and moved afterwards" % (k, x[k].tolist(), y[k].tolist())
        res.count("moved while built")
        res.case(b, done, "moved")
        res.key("moved", *[s.get("s") or s["t"] for s in done[-2:]])
        return None

    def tale(self, plan, upto=None):
        out = []
        for o in plan["h"]:
            if o is upto:
                break
            x = (o["s"].get("s") or o["s"].get("t")) if o["op"] == "step" else o.get("e", "copy")
            out.append(x + ("(" + o["f"]["kind"] + ")" if "f" in o else "") + ("(bad)" if "bad" in o.get("s", ()) else ""))
        return ", ".join(out) or "nothing"

    def attempt(self, call):
        try:
            call()
        except steps.Hang:
            raise
        except BaseException as e:
            return e
        return None

    def answer(self, gd, path, b, op):
        try:
            return P.evaluate(gd, path, b, op), None
        except steps.Hang:
            raise
        except BaseException as e:
            return None, e

    def fresh(self, gd, b, done, funcs=None):
        """The path with the successful steps alone, never evaluated."""
        funcs = funcs or P.Funcs()
        p = P.create(gd, b, funcs)
        for s in done:
            P.apply(p, b, s, funcs)
        return p

    def golden(self, gd, b, done, op):
        funcs = P.Funcs()
        p = self.fresh(gd, b, done, funcs)
        funcs.calls = 0
        kn = kernel.Kernel()
        kn.arm(0)
        with steps.Steps() as st:
            got, err = self.answer(gd, p, b, op)
        allocs = kn.disarm()[0]
        size = len(got) if op in STREAMS and err is None else 0
        return ("raised", type(err).__name__) if err is not None else got, (funcs.calls, st.n, allocs, size)

    def count(self, gd, b, done, call):
        funcs = P.Funcs()
        p = self.fresh(gd, b, done, funcs)
        funcs.calls = 0
        self.attempt(lambda: call(p, funcs))
        return funcs.calls, 0, 0, 0


class Hook(object):
    def __init__(self):
        self.at = None
        self.fired = False

    def arm(self, at, exc, n=1):
        self.at, self.exc, self.n = at, exc, n
        self.seen = 0
        self.fired = False
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.at = None
        return False

    def before(self, name):
        if self.at is None:
            return
        self.seen += 1
        if self.at <= self.seen < self.at + self.n:
            self.fired = True
            raise EXC[self.exc]("user function (simulated)")


def reached(err, exc):
    if err is None:
        return "%s did not reach the caller" % exc.__name__
    e, seen = err, 0
    while e is not None and seen < 10:
        if isinstance(e, exc):
            return None
        e = e.__cause__ or e.__context__
        seen += 1
    return "%s arrived as %s: %s" % (exc.__name__, type(err).__name__, err)


CHECK = C10()
