"""C12: the library registry against a reference model."""
import copy as _copy

from .. import boot, simfs, spec as S
from ..runner import Check, clone, generic_shrinks

NAMES = ["A", "B", "C", "D", "AA", "A1", "ab", "B$"]
OPS = (["cell"] * 5 + ["ref"] * 6 + ["new"] * 3 + ["add"] * 8 + ["remove"] * 4 + ["rename"] * 5 + ["replace"] * 5 + ["import"] * 2 +
       ["extract"] * 2 + ["delref", "delref"])


class Model(object):
    """cells: [name, [targets]]; libs: [{name: cell number}].  A target is the
    number of a cell, or a name."""

    def __init__(self, nlibs):
        self.cells = []
        self.libs = [{} for _ in range(nlibs)]

    def tname(self, t):
        return t if isinstance(t, str) else self.cells[t][0]

    def deps(self, c, out=None):
        """Cells below c, in the order of references."""
        out = {} if out is None else out
        for t in self.cells[c][1]:
            if not isinstance(t, str):
                self.deps(t, out)
                out[t] = None
        return out

    def cyclic(self):
        state = {}

        def go(c):
            if state.get(c) == 1:
                return True
            if state.get(c) == 2:
                return False
            state[c] = 1
            r = any(go(t) for t in self.cells[c][1] if not isinstance(t, str))
            state[c] = 2
            return r
        return any(go(i) for i in range(len(self.cells)))

    def replace(self, lib, old, new, only=None):
        n = 0
        for c in set(self.libs[lib].values()):
            refs = self.cells[c][1]
            for i, t in enumerate(refs):
                if self.tname(t) == old:
                    refs[i] = new
                    n += 1
        return n


class Reject(Exception):
    pass


class C12(Check):
    id = "C12"
    title = "the library registry follows its operations"
    quick = (60000, 45.0)
    thorough = (300000, 800.0)
    real = "gdspy"
    stub = "identity hashes (memory layout) are seeded, streams in memory; user iterables that raise"
    key_measure = "distinct (operation, outcome, previous operation) combinations, with the shape of the libraries"
    case_measure = "a case is one history step compared with the model; non-trivial if the operation changed something or was rejected; distinct by model state and operation"
    assumptions = ["cells are renamed through the only library that holds them", "no cyclic references"]

    def plan(self, rng):
        p = {"libs": rng.choice([1, 2, 2, 3]), "h": [], "hash": [rng.getrandbits(32), rng.getrandbits(32)]}
        for _ in range(rng.randint(4, 40)):
            s = {"o": rng.choice(OPS), "i": rng.randrange(1000), "j": rng.randrange(1000), "k": rng.randrange(1000),
                 "l": rng.randrange(1000), "n": rng.choice(NAMES), "f": [rng.random() < 0.5 for _ in range(4)]}
            if s["o"] == "import":
                ns = rng.sample(NAMES, rng.randint(1, 4))
                s["file"] = [[n, [rng.choice(ns[:i] + NAMES[:2] if i else ["Z"]) for _ in range(rng.choice([0, 1, 2]))]] for i, n in enumerate(ns)]
                for i, (n, refs) in enumerate(s["file"]):
                    s["file"][i][1] = [r for r in refs if r not in ns[i:]]
                s["ren"] = {n: rng.choice(NAMES + ["q", "r"]) for n in ns if rng.random() < 0.3}
                s["tpl"] = rng.choice(["{name}", "{name}", "p-{name}", "{name}1", "A"])
                s["cut"] = rng.choice([None, None, None, None, rng.random()])
            if s["o"] == "add":
                s["m"] = [rng.randrange(1000) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]
                s["form"] = rng.choice(["one", "one", "list", "tuple", "gen", "set", "dup", "badgen", "badobj", "self"])
            p["h"].append(s)
        return p

    def shrinks(self, plan):
        return generic_shrinks(plan, [("h",), ("h", "*", "m"), ("h", "*", "file")])

    def run(self, plan, res):
        simfs.current = simfs.SimFS()
        first = self.history(plan, res, plan["hash"][0], True)
        if first is None or res.violations:
            return
        second = self.history(plan, res, plan["hash"][1], False)
        res.evals += 1
        res.add({"history repeated with another memory layout": 1})
        if second != first and not res.violations:
            for n, (a, b) in enumerate(zip(first, second or [])):
                if a != b:
                    res.violate("memory-layout", "step %d (%s): %s / %s" % (n, plan["h"][n]["o"], a, b))
                    return
            res.violate("memory-layout", "histories differ in length")
        res.samples.append({"ops": [s["o"] for s in plan["h"]]})

    def history(self, plan, res, seed, judge):
        import random
        gd = boot.gdspy
        boot.hashes.install(random.Random(seed))
        gd.current_library = gd.GdsLibrary("global")
        libs = [gd.GdsLibrary("L%d" % i) for i in range(plan["libs"])] + [gd.current_library]
        m = Model(len(libs))
        objs = []
        log = []
        prev = "-"
        for n, s in enumerate(plan["h"]):
            before = self.observe(libs, objs)
            w = World(gd, m, libs, objs, s)
            try:
                todo = w.prepare()
            except Skip:
                log.append("skip")
                continue
            call, expect, loose = todo
            m2 = _copy.deepcopy(m)
            outcome = None
            try:
                want = expect(m2)
            except Reject:
                m2, want = m, None
                outcome = "rejected"
            if loose is None and m2.cyclic():
                log.append("skip")
                continue
            try:
                got = call()
                raised = None
            except Exception as e:
                got, raised = None, e
            w.adopt(m2, got)
            after = self.observe(libs, objs)
            log.append((s["o"], type(raised).__name__, after, self.orders(libs, objs)))
            if not judge:
                m = m2
                if loose is not None:
                    m = self.resync(m2, libs, objs)
                    if m.cyclic():
                        return log
                continue
            res.count(s["o"] + (" rejected" if raised else ""))
            res.evals += 1
            if raised is not None:
                res.add({"operation rejected": 1})
                if outcome is None and loose is None:
                    return res.violate("raised", "%s: %s: %s" % (tale(s), type(raised).__name__, raised))
                if after[:len(before)] != before:
                    return res.violate("rejected-with-effect", "%s raised %s but: %s" % (tale(s), type(raised).__name__, shortdiff(before, after)))
                if isinstance(raised, (SystemError, RecursionError)):
                    return res.violate("raised", "%s: %r" % (tale(s), raised))
                res.key(s["o"], "rejected", prev)
                res.case(before, s["o"], s["n"])
                prev = s["o"] + "!"
                if loose is not None:
                    continue
                continue
            if outcome == "rejected":
                return res.violate("accepted", "%s was not rejected" % tale(s))
            if loose is not None:
                d = loose(m, m2, after)
                if d:
                    return res.violate("effect", "%s: %s" % (tale(s), d))
                m = self.resync(m2, libs, objs)
                if m.cyclic():
                    return log
            else:
                d = self.compare(m2, after)
                if d:
                    return res.violate("effect", "%s: %s" % (tale(s), d))
                if want is not NOTHING and want != got:
                    return res.violate("result", "%s returned %r instead of %r" % (tale(s), got, want))
                m = m2
            d = self.answers(m, libs, objs)
            if d:
                return res.violate("answers", "after %s: %s" % (tale(s), d))
            for l in libs:
                for k, c in l.cells.items():
                    if c.name != k:
                        return res.violate("names", "after %s: %r maps to cell %r" % (tale(s), k, c.name))
            res.see(after)
            res.key(s["o"], "done", prev, len(m.cells))
            if after != before:
                res.case(before, s["o"], s["n"])
            prev = s["o"]
        return log

    # -- actual state ---------------------------------------------------------
    def number(self, objs, c):
        if isinstance(c, str):
            return c
        for i, o in enumerate(objs):
            if o is c:
                return i
        return ("unknown", getattr(c, "name", repr(type(c))))

    def observe(self, libs, objs):
        out = [tuple(sorted(((k, self.number(objs, c)) for k, c in l.cells.items()), key=repr)) for l in libs]
        for i, o in enumerate(objs):
            out.append((o.name, tuple(self.number(objs, r.ref_cell) for r in o.references), len(o.polygons),
                        o.polygons[0].layers[0] if o.polygons else None, len(o.labels), len(o.paths)))
        return out

    def orders(self, libs, objs):
        return [[k for k in l.cells] for l in libs], [[c.name for c in l.top_level()] for l in libs]

    def compare(self, m, after):
        n = len(m.libs)
        for i, l in enumerate(m.libs):
            want = tuple(sorted(l.items(), key=repr))
            if after[i] != want:
                return "library %d holds %s instead of %s" % (i, after[i], want)
        for i, (name, refs) in enumerate(m.cells):
            have = after[n + i]
            if have[0] != name:
                return "cell %d is named %r instead of %r" % (i, have[0], name)
            if have[1] != tuple(refs):
                return "references of %s are %s instead of %s" % (name, have[1], tuple(refs))
            if have[3] != i % 200 or have[2] != 1:
                return "contents of %s changed" % name
        return None

    def resync(self, m, libs, objs):
        m = _copy.deepcopy(m)
        m.libs = [{k: self.number(objs, c) for k, c in l.cells.items()} for l in libs]
        m.cells = [[o.name, [self.number(objs, r.ref_cell) for r in o.references]] for o in objs]
        return m

    def answers(self, m, libs, objs):
        for i, l in enumerate(libs):
            used, named = set(), set()
            for c in m.libs[i].values():
                for t in m.cells[c][1]:
                    (named if isinstance(t, str) else used).add(t)
            top = [self.number(objs, c) for c in l.top_level()]
            if len(top) != len(set(top)):
                return "top level %s repeats cells" % (top,)
            for c in m.libs[i].values():
                if c in used and c in top:
                    return "top level of library %d holds %s, which is referenced" % (i, m.cells[c][0])
                if c not in used and c not in top and m.cells[c][0] not in named:
                    return "top level of library %d lacks %s" % (i, m.cells[c][0])
            if any(t not in m.libs[i].values() for t in top):
                return "top level of library %d holds other cells" % i
            if [id(c) for c in l] != [id(c) for c in l.cells.values()]:
                return "iteration of library %d" % i
        for i, o in enumerate(objs):
            d = set(self.number(objs, c) for c in o.get_dependencies())
            if d != set(t for t in m.cells[i][1] if not isinstance(t, str)):
                return "dependencies of %s: %s" % (m.cells[i][0], d)
            d = set(self.number(objs, c) for c in o.get_dependencies(True))
            if d != set(m.deps(i)):
                return "recursive dependencies of %s: %s" % (m.cells[i][0], d)
        return None


NOTHING = object()


class Skip(Exception):
    pass


def tale(s):
    return "%s(%s)" % (s["o"], ", ".join("%s=%s" % (k, s[k]) for k in ("n", "form", "m", "f", "tpl", "ren", "file") if k in s))


def shortdiff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return "%r became %r" % (x, y)
    return "more cells"


class World(object):
    """Turns a step into a call of gdspy and its effect on the model."""

    def __init__(self, gd, m, libs, objs, s):
        self.gd, self.m, self.libs, self.objs, self.s = gd, m, libs, objs, s
        self.fresh = []

    def lib(self, n):
        return n % len(self.libs)

    def cell(self, n):
        if not self.objs:
            raise Skip
        return n % len(self.objs)

    def inlib(self, li, n):
        v = list(self.m.libs[li].values())
        if not v:
            raise Skip
        return v[n % len(v)]

    def arg(self, c, byname):
        return self.m.cells[c][0] if byname else self.objs[c]

    def mkcell(self, name):
        c = self.gd.Cell(name)
        return self.dress(c, len(self.objs) + len(self.fresh))

    def dress(self, c, n):
        c.add(self.gd.Rectangle((0, 0), (1, 1), layer=n % 200))
        self.fresh.append(c)
        return c

    def adopt(self, m2, got):
        """New cell objects get the next numbers."""
        if self.s["o"] == "new" and got is not None:
            self.dress(got, len(self.objs))
        if self.s["o"] == "import" and got is not None:
            l = self.libs[self.lib(self.s["i"])]
            known = set(map(id, self.objs))
            for c in l.cells.values():
                if id(c) not in known:
                    self.dress(c, len(self.objs) + len(self.fresh))
        self.objs.extend(self.fresh)

    def prepare(self):
        return getattr(self, "p_" + self.s["o"])()

    def p_cell(self):
        s = self.s
        c = self.mkcell(s["n"])

        def expect(m):
            m.cells.append([s["n"], []])
            return NOTHING
        return (lambda: None), expect, None

    def p_ref(self):
        s = self.s
        a, b = self.cell(s["i"]), self.cell(s["j"])
        t = s["n"] if s["k"] % 6 == 0 else b
        gd, objs = self.gd, self.objs

        def call():
            x = t if isinstance(t, str) else objs[t]
            objs[a].add(gd.CellReference(x, (1, 2)) if s["f"][0] else gd.CellArray(x, 1, 2, (3, 4)))

        def expect(m):
            m.cells[a][1].append(t)
            return NOTHING
        return call, expect, None

    def p_delref(self):
        a = self.cell(self.s["i"])
        if not self.m.cells[a][1]:
            raise Skip
        n = self.s["j"] % len(self.m.cells[a][1])

        def expect(m):
            del m.cells[a][1][n]
            return NOTHING
        return (lambda: (self.objs[a].references.pop(n), None)[1]), expect, None

    def p_new(self):
        s = self.s
        li = self.lib(s["i"])
        ow, up = s["f"][0], s["f"][1]

        def expect(m):
            l = m.libs[li]
            if s["n"] in l and not ow:
                raise Reject
            n = len(m.cells)
            m.cells.append([s["n"], []])
            if s["n"] in l and up:
                m.replace(li, s["n"], n)
            l[s["n"]] = n
            return NOTHING
        return (lambda: self.libs[li].new_cell(s["n"], ow, up)), expect, None

    def p_add(self):
        s = self.s
        li = self.lib(s["i"])
        form = s["form"]
        deps, ow, up = s["f"][0], s["f"][1], s["f"][2]
        if form == "one":
            cs = [self.cell(s["j"])]
        elif form == "self":
            cs = list(self.m.libs[(li + 1) % len(self.libs)].values())
        else:
            cs = [self.cell(x) for x in s["m"]]
        if form == "dup":
            cs = cs + cs
        o = [self.objs[c] for c in cs]

        def arg():
            if form == "one":
                return o[0]
            if form == "tuple":
                return tuple(o)
            if form == "gen":
                return (x for x in o)
            if form == "set":
                # (the order of a larger set is the choice of the caller)
                return set(o) if len(set(cs)) < 2 else dict.fromkeys(o).keys()
            if form == "badgen":
                def g():
                    for x in o:
                        yield x
                    raise OSError("user iterable")
                return g()
            if form == "badobj":
                return o + [None]
            if form == "self":
                return self.libs[(li + 1) % len(self.libs)]
            return list(o)
        # all cells of this operation, given ones first
        todo = dict.fromkeys(cs)
        if deps:
            for c in list(todo):
                for d in self.m.deps(c):
                    todo.setdefault(d)
        byname = {}
        for c in todo:
            byname.setdefault(self.m.cells[c][0], set()).add(c)
        clash = any(len(v) > 1 for v in byname.values())

        def expect(m):
            l = m.libs[li]
            if form in ("badgen", "badobj"):
                raise Reject
            if not ow and (clash or any(l.get(m.cells[c][0], c) != c for c in todo)):
                raise Reject
            return NOTHING

        def final(m):
            """Without clashes, and apart from cells that come or go."""
            l = m.libs[li]
            old = set(l.values())
            over = [c for c in todo if l.get(m.cells[c][0], c) != c]
            gone = set(l[m.cells[c][0]] for c in over)
            if up:
                for c in over:
                    for x in old - gone:
                        m.cells[x][1][:] = [c if m.tname(t) == m.cells[c][0] else t for t in m.cells[x][1]]
            for c in todo:
                l[m.cells[c][0]] = c
            return (gone | (set(todo) - old)) if over and up else set()

        def call():
            r = self.libs[li].add(arg(), deps, ow, up)
            return None if r is self.libs[li] else "something else"

        def strict(m):
            expect(m)
            final(m)
            return None

        def loose(m, m2, after):
            if clash:
                return None           # which of two cells wins is only required to be repeatable
            m3 = _copy.deepcopy(m)
            free = final(m3)
            n = len(m3.libs)
            for i, (name, refs) in enumerate(m3.cells):
                if i in free:
                    have = after[n + i][1]
                    if len(have) != len(refs):
                        return "references of %s came or went" % name
                    for r, t in zip(have, refs):
                        if r != t and not (m3.tname(t) in m3.libs[li] and m3.libs[li][m3.tname(t)] == r and m3.tname(t) in byname):
                            return "reference of %s to %s points to %s" % (name, t, r)
                    m3.cells[i][1] = list(have)
            return C12.compare(CHECK, m3, after)
        l = self.m.libs[li]
        over = any(l.get(self.m.cells[c][0], c) != c for c in todo)
        if ow and (over or clash) and form not in ("badgen", "badobj"):
            return call, expect, loose
        return call, strict, None

    def p_remove(self):
        s = self.s
        li = self.lib(s["i"])
        if s["k"] % 8 == 0:
            name, a = s["n"], s["n"]
        else:
            c = self.inlib(li, s["j"])
            name = self.m.cells[c][0]
            a = self.arg(c, s["f"][0])
        refs = s["f"][1]

        def expect(m):
            m.libs[li].pop(name, None)
            n = 0
            if refs:
                for c in set(m.libs[li].values()):
                    keep = [t for t in m.cells[c][1] if m.tname(t) != name]
                    n += len(m.cells[c][1]) - len(keep)
                    m.cells[c][1] = keep
            return n
        return (lambda: self.libs[li].remove(a, refs)), expect, None

    def p_rename(self):
        s = self.s
        li = self.lib(s["i"])
        mode = s["k"] % 10
        up = s["f"][1]
        libs = self.m.libs
        if mode == 0:              # not there
            name = s["n"]
            if name in libs[li]:
                raise Skip
            return (lambda: self.libs[li].rename_cell(name, "Z%d" % s["l"], up)), reject, None
        if mode == 1:              # a cell that is not the library's
            c = self.cell(s["j"])
            if libs[li].get(self.m.cells[c][0]) == c:
                raise Skip
            return (lambda: self.libs[li].rename_cell(self.objs[c], "Z%d" % s["l"], up)), reject, None
        c = self.inlib(li, s["j"])
        if sum(list(l.values()).count(c) for l in libs) != 1:
            raise Skip
        old, new = self.m.cells[c][0], s["n"]

        def expect(m):
            if new in m.libs[li]:
                raise Reject
            del m.libs[li][old]
            m.libs[li][new] = c
            m.cells[c][0] = new
            return m.replace(li, old, c) if up else 0
        return (lambda: self.libs[li].rename_cell(self.arg(c, s["f"][0]), new, up)), expect, None

    def p_replace(self):
        s = self.s
        li = self.lib(s["i"])
        old = s["n"] if s["k"] % 4 == 0 else self.arg(self.cell(s["j"]), s["f"][0])
        oldname = old if isinstance(old, str) else old.name
        new = s["n"] if s["l"] % 5 == 0 else self.arg(self.cell(s["l"]), s["f"][1])

        def expect(m):
            t = new if isinstance(new, str) else C12.number(CHECK, self.objs, new)
            if isinstance(t, str):
                t = m.libs[li].get(t, t)
            return m.replace(li, oldname, t)
        return (lambda: self.libs[li].replace_references(old, new)), expect, None

    def p_extract(self):
        s = self.s
        li = self.lib(s["i"])
        g = len(self.libs) - 1
        if s["k"] % 6 == 0:
            if s["n"] in self.m.libs[li]:
                raise Skip
            return (lambda: self.libs[li].extract(s["n"], s["f"][1])), reject, None
        c = self.inlib(li, s["j"])
        todo = dict.fromkeys([c])
        todo.update(self.m.deps(c))
        names = [self.m.cells[x][0] for x in todo]
        lg = self.m.libs[g]
        over = any(lg.get(self.m.cells[x][0], x) != x for x in todo)
        if s["f"][1] and (over or len(set(names)) != len(names)):
            raise Skip             # add() is exercised with that on its own

        def expect(m):
            if over or len(set(names)) != len(names):
                raise Reject
            for x in todo:
                m.libs[g][m.cells[x][0]] = x
            return NOTHING

        def call():
            r = self.libs[li].extract(self.arg(c, s["f"][0]), s["f"][1])
            return None if r is self.objs[c] else "something else"
        return call, expect, None

    def p_import(self):
        s = self.s
        li = self.lib(s["i"])
        src = self.gd.GdsLibrary("SRC")
        for n, refs in s["file"]:
            c = self.gd.Cell(n)
            for r in refs:
                c.add(self.gd.CellReference(r, (5, 6)))
            src.add(c, include_dependencies=False)
        out = S.MBytes()
        src.write_gds(out, timestamp=boot.real_datetime(2001, 1, 1))
        data = bytes(out.b)
        cut = s["cut"]
        if cut is not None:
            data = data[:int(cut * len(data))]

        def ren(n):
            return s["ren"].get(n, s["tpl"].format(name=n))

        def call():
            import io
            return self.libs[li].read_gds(io.BytesIO(data), rename=dict(s["ren"]), rename_template=s["tpl"])

        def expect(m):
            names = [ren(n) for n, _ in s["file"]]
            if len(set(names)) != len(names) or any(n in m.libs[li] for n in names):
                raise Reject
            base = len(m.cells)
            new = {n: base + i for i, n in enumerate(names)}
            for n, (_, refs) in zip(names, s["file"]):
                m.cells.append([n, [new.get(ren(r), m.libs[li].get(ren(r), ren(r))) for r in refs]])
            m.libs[li].update(new)
            return NOTHING

        def loose(m, m2, after):
            # a damaged file: what was there stays
            n = len(m.libs)
            for i, (name, refs) in enumerate(m.cells):
                if after[n + i][0] != name or after[n + i][1] != tuple(refs):
                    return "cell %s changed" % name
            for i, l in enumerate(m.libs):
                if i != li and after[i] != tuple(sorted(l.items(), key=repr)) or not set(l.items()) <= set(after[i]):
                    return "library %d changed" % i
            return None
        return call, (expect if cut is None else (lambda m: NOTHING)), (None if cut is None else loose)


def reject(m):
    raise Reject


CHECK = C12()
